// Random simulation of a gate structure with a symbolic formula: the order in which gates are evaluated, bit-parallel
// propagation with symbolic input words, partitioning into conjectures, the simulator as a whole, and its parts.
#include "cnf.h"
#include "opts.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/Propagation.h"
#include "candy/randomsimulation/Randomization.h"
#include "candy/randomsimulation/SimulationVector.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/frontend/CLIOptions.h"
#include <cstring>
#include <set>
using namespace Candy; using namespace H;
static const unsigned W = SimulationVector::VARSIMVECSIZE;
typedef uint64_t u64;
// a set bit stands for "false": the literal with a sign is satisfied
static u64 litWord(const SimulationVectors& s, Lit l, unsigned w) { u64 v = s.getConst((int)l.var()).vars[w]; return l.sign() ? v : ~v; }
static u64 clWord(const SimulationVectors& s, const Cl& c, unsigned w) { u64 r = 0; for (Lit l : c) r |= litWord(s, l, w); return r; }
static u64 restWord(const SimulationVectors& s, const For& f, Lit o, unsigned w) { u64 r = ~0ull; for (Cl* c : f) { u64 k = 0; for (Lit l : *c) if (l != o) k |= litWord(s, l, w); r &= k; } return r; }
struct SetFilter : GateFilter { std::unordered_set<Var> e; std::unordered_set<Var> getEnabledOutputVars() override { return e; } };

static std::unique_ptr<ClauseOrder> order() { return sym_iparam("REC", 0) ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder(); }
// which gates are to be simulated: 0 all, 1 the non-monotone ones (filter by the library), 2 a symbolic choice
static std::unique_ptr<GateFilter> filter(const GateAnalyzer& ga, std::vector<char>& enabled) {
  const GateProblem& gp = ga.getGateProblem(); const int F = sym_iparam("FILTER", 0); enabled.assign(gp.nVars(), 1);
  if (F == 0) return nullptr;
  if (F == 1) { for (const Gate& g : gp) if (g.isDefined()) enabled[(int)g.out.var()] = g.hasNonMonotonicParent(); return createNonmonotonousGateFilter(ga); }
  auto f = std::unique_ptr<SetFilter>(new SetFilter()); unsigned i = 0;
  for (const Gate& g : gp) if (g.isDefined()) { bool on = i++ < 5 ? sym_pick("enabled", 0, 1) : true; enabled[(int)g.out.var()] = on; if (on) f->e.insert(g.out.var()); }
  return std::unique_ptr<GateFilter>(f.release()); }
// gates whose value depends, through enabled gates only, on inputs
static std::vector<char> simulated(const GateProblem& gp, const std::vector<char>& enabled) {
  std::vector<char> s(gp.nVars(), 0);
  for (bool ch = true; ch;) { ch = false; for (const Gate& g : gp) if (g.isDefined() && !s[(int)g.out.var()] && enabled[(int)g.out.var()]) {
    bool ok = true; for (Lit i : g.inp) ok &= !gp[i.var()].isDefined() || s[(int)i.var()]; if (ok) s[(int)g.out.var()] = 1, ch = true; } }
  return s; }
static void checkOrder(ClauseOrder& co, const GateProblem& gp, const std::vector<char>& sim) {
  std::vector<char> isIn(gp.nVars(), 0), want(gp.nVars(), 0), done(gp.nVars(), 0); int mx = -1;
  for (const Gate& g : gp) if (g.isDefined()) { mx = std::max(mx, (int)g.out.var()); for (Lit i : g.inp) { mx = std::max(mx, (int)i.var()); if (!gp[i.var()].isDefined()) want[(int)i.var()] = 1; } }
  for (Var v : co.getInputVariables()) { sym_check(!isIn[(int)v], "an input variable is listed once"); isIn[(int)v] = 1; }
  sym_check(isIn == want, "the input variables are those used by gates and not defined by one");
  sym_check((int)co.getAmountOfVars() > mx, "the amount of variables covers the gate structure");
  unsigned n = 0; for (char c : sim) n += c;
  for (Lit o : co.getGateOutputsOrdered()) {
    const Gate& g = gp[o.var()]; sym_check(g.isDefined() && sim[(int)o.var()], "a simulated variable is an enabled gate output"); sym_check(!done[(int)o.var()], "an output is listed once"); done[(int)o.var()] = 1; n--;
    for (Lit i : g.inp) sym_check(gp[i.var()].isDefined() ? done[(int)i.var()] : isIn[(int)i.var()], "every input of a gate comes before its output");
    const std::vector<const Cl*>& cs = co.getClauses(o.var()); sym_check(!cs.empty(), "an output has clauses");
    const For& f = o == g.out ? g.bwd : g.fwd; std::set<const Cl*> a(cs.begin(), cs.end()), b(f.begin(), f.end());
    sym_check(a == b && cs.size() == f.size(), "the clauses of an output are the gate's clauses with that literal");
    if (!g.hasNonMonotonicParent()) sym_check(o == ~g.out, "a monotonously nested gate is represented by its forward clauses"); else sym_reach("NM"); }
  sym_check(n == 0, "every enabled gate output is listed"); }

// some bits of the first and last word are symbolic, the others are a fixed mixture
static u64 word(unsigned w, u64 c) {
  if (w == 0) return (c & 0x0ffffffffffffff0ull) | sym_val("low", 4) | sym_val("high", 4) << 60;
  if (w == W - 1) return (c & ~(0xfull << 30)) | sym_val("mid", 4) << 30;
  return c; }
static int prop() {
  const unsigned NV = sym_iparam("NV", 4); Formula f; f.parse(sym_param("SPEC", ""), NV); CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  GateAnalyzer ga(p, static_cast<GateRecognitionMethod>(sym_iparam("METHOD", 0)), sym_iparam("TRIES", 0), 0); ga.analyze();
  const GateProblem& gp = ga.getGateProblem(); std::vector<char> en; auto co = order(); { auto g = filter(ga, en); if (g) co->setGateFilter(std::move(g)); }
  std::vector<char> sim = simulated(gp, en);
  for (int k = sym_iparam("REREAD", 1); k > 0; k--) co->readGates(ga);
  checkOrder(*co, gp, sim);
  SimulationVectors s; unsigned n = std::max((size_t)co->getAmountOfVars(), gp.nVars()); s.initialize(n);
  for (unsigned v = 0; v < n; v++) for (unsigned w = 0; w < W; w++) sym_check(s.get(v).vars[w] == 0, "simulation vectors are initialised");
  auto pr = createInputToOutputPropagation(); std::vector<std::vector<u64>> in(n);
  for (int round = 0; round < sym_iparam("ROUNDS", 1); round++) {
    for (Var v : co->getInputVariables()) { in[(int)v].resize(W); for (unsigned w = 0; w < W; w++) in[(int)v][w] = s.get((int)v).vars[w] = word(w, 0x9e3779b97f4a7c15ull * (w + 1 + 77 * (int)v + round)); }
    pr->propagate(s, *co);
    for (Var v : co->getInputVariables()) for (unsigned w = 0; w < W; w++) sym_check(s.get((int)v).vars[w] == in[(int)v][w], "propagation leaves the inputs alone");
    for (unsigned w = 0; w < W; w++) { u64 bad = 0, mono = 0;
      for (Lit o : co->getGateOutputsOrdered()) { const Gate& g = gp[o.var()]; for (Cl* c : g.fwd) bad |= ~clWord(s, *c, w); for (Cl* c : g.bwd) bad |= ~clWord(s, *c, w); if (!g.hasNonMonotonicParent()) mono |= litWord(s, g.out, w) ^ restWord(s, g.fwd, ~g.out, w); }
      sym_check(bad == 0, "in every simulated assignment the clauses of the simulated gates hold");
      sym_check(mono == 0, "a monotonously nested output is true exactly where its forward clauses allow it"); } }
  sym_observe("outputs", co->getGateOutputsOrdered().size()); sym_observe("inputs", co->getInputVariables().size()); if (co->getGateOutputsOrdered().size() > 1) sym_reach("OUT2");
  return 0; }

// assigns the inputs rows of the truth table of all inputs; round r sees the rows its mask selects
struct Table : Randomization { unsigned round = 0; std::vector<Var> ins; std::vector<u64> rows;
  void randomize(SimulationVectors& s, const std::vector<SimulationVectors::index_t>& idx) override {
    ins.assign(idx.begin(), idx.end()); const unsigned n = idx.size(), R = sym_iparam("ROUNDS", 1); const u64 all = 1ull << n, chunk = (all + R - 1) / R;
    std::vector<u64> sel; for (u64 r = round * chunk; r < (round + 1) * chunk && r < all; r++) sel.push_back(r);
    if (sel.empty()) sel.push_back(0);
    unsigned skip = sym_iparam("SKIP", 0) ? sym_pick("skip", 0, 3) : 0; if (skip && sel.size() > 3) { std::vector<u64> t; for (unsigned i = 0; i < sel.size(); i++) if (i % 3 != skip - 1) t.push_back(sel[i]); sel = t; }
    rows.insert(rows.end(), sel.begin(), sel.end());
    for (unsigned b = 0; b < W * 64; b++) { u64 row = sel[b % sel.size()]; for (unsigned i = 0; i < n; i++) { u64& w = s.get((int)idx[i]).vars[b / 64]; u64 m = 1ull << (b % 64); if (row >> i & 1) w &= ~m; else w |= m; } }
    round++; } };
static int run() {
  const unsigned NV = sym_iparam("NV", 4); Formula f; f.parse(sym_param("SPEC", ""), NV); CNFProblem p; f.addTo(p); while (p.nVars() < NV) p.newVar();
  GateAnalyzer ga(p, static_cast<GateRecognitionMethod>(sym_iparam("METHOD", 0)), 0, 0); ga.analyze();
  const GateProblem& gp = ga.getGateProblem(); std::vector<char> en; const unsigned R = sym_iparam("ROUNDS", 1);
  Table* t = new Table(); BitparallelRandomSimulatorBuilder b(ga); b.withRandomizationStrategy(std::unique_ptr<Randomization>(t));
  if (sym_iparam("REC", 0)) b.withClauseOrderStrategy(createRecursiveClauseOrder());
  const char* cs = sym_param("COMPRESS", ""); if (!strcmp(cs, "lin")) b.withPartitionStrategy(createDefaultPartition(createLinearCompressionScheduleStrategy(2))); else if (!strcmp(cs, "null")) b.withPartitionStrategy(createDefaultPartition(createNullCompressionScheduleStrategy()));
  { auto g = filter(ga, en); if (g) b.withGateFilter(std::move(g)); }
  std::vector<char> sim = simulated(gp, en);
  auto s = b.build(); unsigned extra = sym_iparam("ODD", 0); Conjectures cj = s->run(R * W * 64 - extra);
  sym_check(t->round == R, "the simulator performs the requested number of rounds");
  // the value of every gate for the rows shown, by the definition alone
  std::vector<std::vector<char>> val(NV); for (unsigned i = 0; i < t->ins.size(); i++) for (u64 r : t->rows) val[(int)t->ins[i]].push_back(r >> i & 1);
  std::vector<char> done(NV, 0); for (Var v : t->ins) done[(int)v] = 1;
  for (bool ch = true; ch;) { ch = false; for (const Gate& g : gp) if (g.isDefined() && !done[(int)g.out.var()]) { bool ok = true; for (Lit i : g.inp) ok &= done[(int)i.var()]; if (!ok) continue; done[(int)g.out.var()] = 1; ch = true;
    for (unsigned k = 0; k < t->rows.size(); k++) { bool a = true; for (Cl* c : g.fwd) { bool o = false; for (Lit l : *c) if (l.var() != g.out.var()) o |= val[(int)l.var()][k] != l.sign(); a &= o; } val[(int)g.out.var()].push_back(a != g.out.sign()); } } }
  // what holds on all rows
  std::vector<char> bb(NV, 0); std::vector<int> cls(NV, -1); std::vector<char> pol(NV, 0); unsigned nbb = 0, neq = 0;
  for (unsigned v = 0; v < NV; v++) if (sim[v]) { bool c = true; for (char k : val[v]) c &= k == val[v][0]; if (c) bb[v] = 1, nbb++; }
  for (unsigned v = 0; v < NV; v++) if (sim[v] && !bb[v]) { for (unsigned u = 0; u < v && cls[v] < 0; u++) if (sim[u] && !bb[u]) { bool same = true, opp = true; for (unsigned k = 0; k < val[v].size(); k++) (val[u][k] == val[v][k] ? opp : same) = false; if (same || opp) cls[v] = cls[u], pol[v] = pol[u] ^ opp; } if (cls[v] < 0) cls[v] = v; }
  std::vector<char> sb(NV, 0), se(NV, 0); const bool whole = t->rows.size() >= (1ull << t->ins.size());
  Asg x = symAsg(NV); uint8_t def = 1; for (const Gate& g : gp) if (g.isDefined()) { uint8_t a = 1; for (Cl* c : g.fwd) { uint8_t o = 0; for (Lit l : *c) if (l.var() != g.out.var()) o |= evLit(x, l); a &= o; } def &= (uint8_t)(evLit(x, g.out) == a); }
  for (auto& c : cj.getBackbones()) { int v = (int)c.getLit().var(); sym_check(v < (int)NV && sim[v] && !sb[v], "a backbone conjecture is about a simulated output, once"); sb[v] = 1;
    sym_check(bb[v] && val[v][0] == !c.getLit().sign(), "a backbone conjecture holds on every simulated assignment");
    if (whole) sym_check(def == 0 || evLit(x, c.getLit()), "with all input assignments simulated, a backbone conjecture is a fact"); }
  for (auto& c : cj.getEquivalences()) { sym_check(c.size() > 1, "an equivalence has at least two literals"); Lit a = *c.begin(); neq++;
    for (Lit l : c) { int v = (int)l.var(); sym_check(v < (int)NV && sim[v] && !se[v] && !bb[v], "an equivalence is about simulated outputs that change, each once"); se[v] = 1;
      sym_check(cls[v] == cls[(int)a.var()] && (pol[v] ^ l.sign()) == (pol[(int)a.var()] ^ a.sign()), "an equivalence conjecture holds on every simulated assignment");
      if (whole) sym_check(def == 0 || evLit(x, l) == evLit(x, a), "with all input assignments simulated, an equivalence conjecture is a fact"); }
    unsigned n = 0; for (unsigned v = 0; v < NV; v++) n += sim[v] && !bb[v] && cls[v] == cls[(int)a.var()]; sym_check(n == c.size(), "an equivalence conjecture contains every output that agreed"); }
  for (unsigned v = 0; v < NV; v++) { if (bb[v]) sym_check(sb[v], "every output that never changed is reported"); if (sim[v] && !bb[v]) { unsigned n = 0; for (unsigned u = 0; u < NV; u++) n += sim[u] && !bb[u] && cls[u] == cls[v]; if (n > 1) sym_check(se[v], "every output that agreed with another is reported"); } }
  if (nbb) sym_reach("BACKBONE"); if (neq) sym_reach("EQUIV"); sym_observe("bb", nbb); sym_observe("eq", neq);
  return 0; }

// partitions of arbitrary variables: values of each round picked symbolically
static int part() {
  const unsigned N = sym_iparam("VARS", 3), R = sym_iparam("ROUNDS", 2); const int id[6] = {4, 0, 7, 2, 9, 5}; const char* cs = sym_param("COMPRESS", "");
  auto pt = !strcmp(cs, "lin") ? createDefaultPartition(createLinearCompressionScheduleStrategy(1)) : !strcmp(cs, "null") ? createDefaultPartition(createNullCompressionScheduleStrategy()) : createDefaultPartition();
  std::vector<Var> vars; for (unsigned i = 0; i < N; i++) vars.push_back(id[i]); pt->setVariables(vars);
  SimulationVectors s; s.initialize(10); std::vector<std::vector<u64>> h(N); const unsigned P = sym_iparam("PATTERNS", 4);
  for (unsigned r = 0; r < R; r++) {
    for (unsigned i = 0; i < N; i++) { unsigned k = sym_pick("pattern", 0, P - 1); const unsigned word = sym_iparam("WORD", 13); const u64 d = sym_iparam("DIFF", 0) ? sym_val("difference", 64) : 1; for (unsigned w = 0; w < W; w++) { u64 a = 0x0123456789abcdefull * (w + 1), v = k == 0 ? 0 : k == 1 ? ~0ull : k == 2 ? a : k == 3 ? ~a : k == 4 ? (w == word ? a ^ d : a) : k == 5 ? (w == word ? d : 0) : (w == word ? ~d : ~0ull); s.get(id[i]).vars[w] = v; h[i].push_back(v); } }
    pt->update(s); if (sym_iparam("EACH", 0) || r + 1 == R) {
      Conjectures c = pt->getConjectures(); std::vector<int> sb(10, -1), se(10, 0);
      for (auto& b : c.getBackbones()) { sym_check(sb[(int)b.getLit().var()] < 0, "a backbone is listed once"); sb[(int)b.getLit().var()] = b.getLit().sign(); }
      std::vector<int> grp(10, -1), gs(10, 0); int gi = 0; for (auto& e : c.getEquivalences()) { sym_check(e.size() > 1, "an equivalence has two literals"); for (Lit l : e) { sym_check(grp[(int)l.var()] < 0, "a variable is in one equivalence"); grp[(int)l.var()] = gi; gs[(int)l.var()] = l.sign(); } gi++; }
      std::vector<char> con(N, 0); for (unsigned i = 0; i < N; i++) { bool z = true, o = true; for (u64 v : h[i]) z &= v == 0, o &= v == ~0ull; con[i] = z || o;
        sym_check(sb[id[i]] == (z ? 0 : o ? 1 : -1), "backbones are the variables that kept one value"); if (con[i]) { sym_check(grp[id[i]] < 0, "a backbone is in no equivalence"); sym_reach("BACKBONE"); } }
      for (unsigned i = 0; i < N; i++) for (unsigned j = 0; j < i; j++) if (!con[i] && !con[j]) { bool sa = true, op = true; for (unsigned k = 0; k < h[i].size(); k++) { sa &= h[i][k] == h[j][k]; op &= h[i][k] == ~h[j][k]; }
        bool tog = grp[id[i]] >= 0 && grp[id[i]] == grp[id[j]]; sym_check(tog == (sa || op), "two literals share a partition exactly if they always had the same value"); if (tog) { sym_check((gs[id[i]] == gs[id[j]]) == sa, "the signs of an equivalence are right"); sym_reach("EQUIV"); } }
      for (unsigned v = 0; v < 10; v++) { bool in = false; for (unsigned i = 0; i < N; i++) in |= id[i] == (int)v; if (!in) sym_check(sb[v] < 0 && grp[v] < 0, "only the given variables are partitioned"); }
      sym_observe("groups", gi); } }
  return 0; }

struct Count : Randomization { std::vector<int>& log; int id; Count(std::vector<int>& l, int i) : log(l), id(i) {} void randomize(SimulationVectors& s, const std::vector<SimulationVectors::index_t>& idx) override { log.push_back(id); for (auto i : idx) s.get((int)i).vars[0] = id; } };
static int misc() {
  { const unsigned period = sym_pick("period", 1, 4); std::vector<int> log; auto a = alternateRandomizations(std::unique_ptr<Randomization>(new Count(log, 1)), std::unique_ptr<Randomization>(new Count(log, 2)), period);
    SimulationVectors s; s.initialize(2); std::vector<SimulationVectors::index_t> idx{1};
    for (unsigned k = 0; k < 10; k++) { a->randomize(s, idx); sym_check(log.size() == k + 1 && log[k] == (int)(1 + k / period % 2), "alternation changes the target whenever the number of calls is a multiple of the period"); } }
  { const unsigned kind = sym_pick("kind", 0, 4), bias = sym_pick("bias", 1, 3); auto r = kind == 0 ? createSimpleRandomization() : kind == 1 ? createRandomizationBiasedToTrue(bias) : kind == 2 ? createRandomizationBiasedToFalse(bias) : kind == 3 ? createRandomizationCyclicallyBiasedToTrue(1, bias, 1) : createRandomizationCyclicallyBiasedToFalse(1, bias, 2);
    const unsigned idx = sym_pick("index", 0, 3); SimulationVectors s; s.initialize(4); std::vector<std::vector<u64>> o(4); for (unsigned v = 0; v < 4; v++) for (unsigned w = 0; w < W; w++) { u64 k = sym_val("old", 64); s.get(v).vars[w] = k; o[v].push_back(k); }
    std::vector<SimulationVectors::index_t> ix{(int)idx}; r->randomize(s, ix);
    for (unsigned v = 0; v < 4; v++) if (v != idx) for (unsigned w = 0; w < W; w++) sym_check(s.get(v).vars[w] == o[v][w], "randomisation changes the given variables only");
    unsigned ones = 0; for (unsigned w = 0; w < W; w++) for (unsigned b = 0; b < 64; b++) ones += s.get(idx).vars[w] >> b & 1; unsigned lo = kind == 1 ? 2048 - 2048 / (1u << bias) - 150 : kind == 2 ? 2048 / (1u << bias) - 150 : 874, hi = lo + 300;
    sym_check(ones >= lo && ones <= hi, "the first round has the share of bits asked for"); sym_observe("ones", ones); }
  { const unsigned m = sym_range("max", 0, 5); Conjectures c; unsigned total = 0, mx = 0;
    for (unsigned k = 0; k < 3; k++) { unsigned n = sym_pick("size", 2, 4); EquivalenceConjecture e; for (unsigned i = 0; i < n; i++) { e.addLit(Lit((int)(4 * k + i), i & 1)); mx = 4 * k + i; } c.addEquivalence(e); total += n * (n - 1) / 2; sym_check(e.size() == n && e.at(n - 1) == Lit((int)(4 * k + n - 1), (n - 1) & 1), "an equivalence keeps its literals"); }
    bool bb = sym_bool("bb"); if (bb) { c.addBackbone(BackboneConjecture(Lit(17, 1))); mx = 17; }
    sym_check(countLiteralEquivalences(c) == total, "the pairs of equivalent literals are counted"); sym_check(c.getMaxVar() == Var((int)mx), "the largest variable is found");
    Conjectures a = createSizeConjectureFilter(m)->apply(c), r = createBackboneRemovalConjectureFilter()->apply(c); unsigned i = 0;
    for (auto& e : c.getEquivalences()) if (e.size() <= m) { sym_check(i < a.getEquivalences().size() && std::vector<Lit>(a.getEquivalences()[i].begin(), a.getEquivalences()[i].end()) == std::vector<Lit>(e.begin(), e.end()), "the size filter keeps the small equivalences"); i++; }
    sym_check(i == a.getEquivalences().size() && a.getBackbones().size() == c.getBackbones().size(), "the size filter removes the large equivalences and nothing else");
    sym_check(r.getBackbones().empty() && r.getEquivalences().size() == c.getEquivalences().size(), "the backbone filter removes the backbones and nothing else"); sym_reach("FILTERED"); }
  return 0; }
extern "C" int harness() {
  configure(); const char* m = sym_param("MODE", "prop");
  return !strcmp(m, "prop") ? prop() : !strcmp(m, "run") ? run() : !strcmp(m, "part") ? part() : misc(); }
