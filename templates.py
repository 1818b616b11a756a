# Formula families with symbolic parts (see harness/cnf.h for the notation).
import random
def rnd(n, m, sym, seed, width=3):
    """m random clauses of the given width over n variables; `sym` literals have a symbolic sign"""
    r = random.Random(seed); out = []; pos = [(i, j) for i in range(m) for j in range(width)]; r.shuffle(pos); S = set(pos[:sym])
    for i in range(m):
        vs = r.sample(range(1, n + 1), width)
        out.append(" ".join(("?" if (i, j) in S else ("-" if r.random() < .5 else "")) + str(v) for j, v in enumerate(vs)))
    return ";".join(out)
def php(p, h, opt=0, seed=1):
    """p pigeons in h holes, `opt` of the at-most-one clauses present or absent symbolically"""
    r = random.Random(seed); v = lambda i, j: i * h + j + 1; c = [" ".join(str(v(i, j)) for j in range(h)) for i in range(p)]
    am = [(i, k, j) for j in range(h) for i in range(p) for k in range(i)]; o = set(r.sample(range(len(am)), opt))
    return ";".join(c + [("!" if n in o else "") + "-%d -%d" % (v(i, j), v(k, j)) for n, (i, k, j) in enumerate(am)])
def parity(n, opt, seed=1):
    """two contradicting parity chains over n variables with auxiliary variables; `opt` clauses optional. Returns (spec, nvars)"""
    r = random.Random(seed); c = []; k = n + 1
    def x3(a, b, d): return [" ".join(("-" if m >> i & 1 else "") + str(v) for i, v in enumerate((a, b, d))) for m in range(8) if bin(m).count("1") % 2]
    prev = 1
    for i in range(2, n + 1): c += x3(prev, i, k); prev = k; k += 1
    c.append("%d" % prev); prev = n
    for i in range(n - 1, 0, -1): c += x3(prev, i, k); prev = k; k += 1
    c.append("-%d" % prev)
    idx = [i for i, x in enumerate(c) if len(x.split()) == 3]; r.shuffle(idx)
    for i in idx[:opt]: c[i] = "!" + c[i]
    return ";".join(c), k - 1
def circuit(nin, ngates, sym, seed, optional=0):
    """random Tseitin circuit: and/or/xor gates with symbolic input polarities. Returns (spec, nvars)"""
    r = random.Random(seed); c = []; n = nin; tot = 0
    gates = []
    for g in range(ngates):
        kind = r.choice(["and", "or", "xor"]); a, b = r.sample(range(1, n + 1), 2); n += 1; gates.append((kind, a, b, n))
    for kind, a, b, o in gates:
        if kind == "and": c += ["%d -%d -%d" % (o, a, b), "-%d %d" % (o, a), "-%d %d" % (o, b)]
        elif kind == "or": c += ["-%d %d %d" % (o, a, b), "%d -%d" % (o, a), "%d -%d" % (o, b)]
        else: c += ["-%d %d %d" % (o, a, b), "-%d -%d -%d" % (o, a, b), "%d -%d %d" % (o, a, b), "%d %d -%d" % (o, a, b)]
    c.append("?%d" % n)
    lits = [(i, j) for i, x in enumerate(c[:-1]) for j in range(len(x.split()))]; r.shuffle(lits)
    for i, j in lits[:sym]:
        t = c[i].split(); t[j] = "?" + t[j].lstrip("-?"); c[i] = " ".join(t)
    idx = list(range(len(c) - 1)); r.shuffle(idx)
    for i in idx[:optional]: c[i] = "!" + c[i]
    return ";".join(c), n
R4 = "?1 ?2 ?3;-1 2 4;1 ?2 3;?1 ?2 ?4;2 3 -4;-3 ?4 1;?3 -4 -1;3 4 ?2;-2 ?3 -4;-2 -3 ?4"
UNITS = "!1;!-1;!1 2;!-2 3;!-3 -1;!3 ?2;!-3;!?2 ?1"
DUPS = "@ @ 1;?1 2 -2;3 3 ?3;@ @;?2 ?2 ?3;!E;-1 ?3"
def mixed(n, sizes, sym, seed, opt=0):
    """clauses of the given sizes {width: count} over n variables, `sym` literals with symbolic sign, `opt` optional clauses"""
    r = random.Random(seed); cl = []
    for w, k in sorted(sizes.items()):
        for _ in range(k): cl.append([(v, r.random() < .5) for v in r.sample(range(1, n + 1), w)])
    r.shuffle(cl); pos = [(i, j) for i in range(len(cl)) for j in range(len(cl[i]))]; r.shuffle(pos); S = set(pos[:sym]); O = set(r.sample(range(len(cl)), opt))
    return ";".join(("!" if i in O else "") + " ".join(("?" if (i, j) in S else ("-" if s else "")) + str(v) for j, (v, s) in enumerate(c)) for i, c in enumerate(cl))
def chain(n, sym, seed):
    """long implication chains feeding a small core: deep propagation, long trails"""
    r = random.Random(seed); c = ["-%d %d" % (i, i + 1) for i in range(1, n - 3)]; a, b, d, e = n - 3, n - 2, n - 1, n
    c += ["-%d ?%d ?%d" % (a, b, d), "%d ?%d ?%d" % (r.randint(1, n // 2), d, e), "?%d ?%d %d" % (b, e, r.randint(1, n // 2)), "-%d -%d ?%d" % (b, d, e)]
    r.shuffle(c); return ";".join(c)

def hist(n, phases, seed, first=None):
    """an incremental history: phases are ("A", clauses, width-range, symbolic signs, optional) | ("S", fixed assumptions, symbolic ones) | literal strings"""
    r = random.Random(seed); out = []
    for ph in phases:
        if isinstance(ph, str): out.append(ph); continue
        if ph[0] == "A":
            _, m, (lo, hi), sym, opt = ph; cl = [[(v, r.random() < .5) for v in r.sample(range(1, n + 1), r.randint(lo, hi))] for _ in range(m)]
            pos = [(i, j) for i in range(m) for j in range(len(cl[i]))]; r.shuffle(pos); S = set(pos[:sym]); O = set(r.sample(range(m), opt))
            out.append("A" + ";".join(("!" if i in O else "") + " ".join(("?" if (i, j) in S else "-" if s else "") + str(v) for j, (v, s) in enumerate(c)) for i, c in enumerate(cl)))
        else:
            _, fx, sy = ph; vs = r.sample(range(1, n + 1), fx + sy)
            out.append("S" + " ".join(("?" if i < sy else "-" if r.random() < .5 else "") + str(v) for i, v in enumerate(vs)))
    return "|".join(out)
def selectors(spec, nv, syms, seed):
    """adds a selector literal to every clause and assumes all selectors (group cores); returns (clauses, assumptions, nvars)"""
    cl = spec.split(";"); out = []; a = []; k = nv
    for i, c in enumerate(cl): k += 1; out.append(c + " -%d" % k); a.append(k)
    r = random.Random(seed); S = set(r.sample(a, syms))
    return ";".join(out), " ".join(("?" if v in S else "") + str(v) for v in a), k
def planted(n, pairs, sym, seed, widths=(3, 3, 2)):
    """formula with exactly one model (under the concrete part), plus pairs of nested clauses whose shared literals have symbolic signs: every strengthening or subsumption matters"""
    import itertools
    r = random.Random(seed); h = [r.random() < .5 for _ in range(n)]; ms = list(itertools.product((False, True), repeat=n)); cl = []
    while len(ms) > 1:
        w = r.choice(widths); vs = r.sample(range(n), w); c = [(v, r.random() < .5) for v in vs]
        if not any(h[v] == s for v, s in c): continue
        k = [m for m in ms if any(m[v] == s for v, s in c)]
        if len(k) < len(ms): cl.append(c); ms = k
    out = [" ".join(("" if s else "-") + str(v + 1) for v, s in c) for c in cl]
    for a, b in pairs:
        vs = r.sample(range(n), b); t = r.randrange(a); syms = set(r.sample(range(a), min(sym, a)))
        lit = lambda v, s: ("" if s else "-") + str(v + 1)
        # the large clause is true under the model in one shared literal only
        out.append(" ".join(("?" + str(v + 1)) if i in syms else lit(v, h[v] == (i == t)) for i, v in enumerate(vs)))
        out.append(" ".join(("?" + str(v + 1)) if i in syms and i % 2 else lit(v, h[v]) for i, v in enumerate(vs[:a])))
    r.shuffle(out); return ";".join(out)
