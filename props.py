# Which harnesses decide which property, and their bounds.
from templates import *
PROPS = {}
def H(name, file, bounds="", time=40, **kw):
    return dict(name=name, file=file, bounds=bounds, time=time, **kw)
def desc(sp, nv):
    return "%d variables, %d clauses, %d symbolic literal signs, %d clauses symbolically present/absent, %d symbolic variable choices; all values" % (nv, sp.count(";") + 1, sp.count("?"), sp.count("!"), sp.count("@"))
CONF = {
 "default": dict(), "nopre": dict(PRE=0), "noelim": dict(ELIM=0), "asymm": dict(ASYMM=1), "cllim": dict(CLLIM=4),
 "inproc": dict(INPROC=1, FASTREDUCE=3, FASTRESTART=2), "inprocnopre": dict(PRE=0, INPROC=1, FASTREDUCE=3, FASTRESTART=2),
 "fast": dict(PRE=0, FASTREDUCE=2, FASTRESTART=2), "static": dict(PRE=0, STATICP=1, FASTREDUCE=3, FASTRESTART=2), "staticpre": dict(STATICP=1),
 "lrb": dict(PRE=0, LRB=1, FASTREDUCE=3, FASTRESTART=3), "lrbpre": dict(LRB=1), "sortv": dict(SORTV=1, PRE=0), "median": dict(PRE=0, MEDIAN=1, FASTREDUCE=3, PLBD=1), "norecalc": dict(PRE=0, RECALC=0, FASTREDUCE=3, FASTRESTART=3), "bump": dict(PRE=0, EXTRABUMP=1, FASTREDUCE=3),
}
T = {  # formula families: name -> (specification, number of variables)
 "R4": (R4, 4), "units": (UNITS, 3), "dups": (DUPS, 3), "r5": (rnd(5, 20, 11, 5), 5), "r6": (rnd(6, 26, 10, 1), 6), "r8": (rnd(8, 35, 10, 3), 8), "r10": (rnd(10, 43, 9, 4), 10), "r12": (rnd(12, 54, 9, 2), 12), "r16": (rnd(16, 70, 8, 6), 16), "r20": (rnd(20, 90, 8, 8), 20),
 "r30": (rnd(30, 136, 6, 3), 30), "r40": (rnd(40, 185, 6, 2), 40), "r50": (rnd(50, 235, 5, 4), 50), "r60": (rnd(60, 256, 4, 7), 60),
 "php43": (php(4, 3, 10), 12), "php54": (php(5, 4, 8), 20), "php65": (php(6, 5, 5), 30), "par5": parity(5, 9), "par8": parity(8, 7), "par12": parity(12, 5),
 "mix8": (mixed(8, {1: 1, 2: 8, 3: 14, 4: 4}, 8, 2, 2), 8), "mix15": (mixed(15, {2: 16, 3: 30, 4: 4, 6: 2}, 7, 5, 2), 15), "mix30": (mixed(30, {2: 24, 3: 75, 5: 10, 8: 5}, 6, 3, 2), 30), "mix60": (mixed(60, {2: 36, 3: 160, 6: 20, 12: 4}, 4, 4, 2), 60),
 "bin10": (mixed(10, {2: 22, 3: 3}, 9, 1, 2), 10), "circ": circuit(6, 14, 6, 1, 3), "circ30": circuit(10, 40, 6, 2, 3), "chain20": (chain(20, 0, 1), 20), "w5": (mixed(7, {5: 40, 3: 12, 4: 16}, 9, 6), 7), "w7": (mixed(9, {7: 30, 3: 14, 4: 26}, 8, 6), 9),
}
for i, (n, sz, sd) in enumerate([(24, {3: 80, 4: 60, 6: 60}, 6), (11, {4: 50, 5: 50}, 27), (11, {4: 90, 6: 20}, 35), (10, {3: 10, 4: 40, 5: 60}, 54), (14, {3: 20, 4: 80, 5: 90}, 35), (20, {3: 60, 4: 60, 5: 80}, 39), (9, {4: 40, 5: 60, 6: 30}, 0), (14, {3: 20, 4: 80, 5: 90}, 6)]):
    T["sub%d" % i] = (mixed(n, sz, 6, sd, 0), n)   # formulas on which learnt clauses subsume input clauses during inprocessing
for i, (n, prs, sy) in enumerate([(8, [(4, 7), (2, 4)], 3), (8, [(4, 8), (3, 5)], 3), (9, [(5, 8), (4, 9)], 2), (10, [(4, 7), (3, 4), (2, 5)], 2), (10, [(6, 9), (5, 10)], 3)]): T["plant%d" % i] = (planted(n, prs, sy, i), n)
T["sat14"] = (rnd(14, 55, 7, 11), 14); T["sat18"] = (mixed(18, {2: 8, 3: 58, 5: 10}, 7, 12), 18)
PLANT = ["plant%d" % i for i in range(5)]
SUB = ["sub%d" % i for i in range(8)]
def S(t, c="default", **kw):
    sp, nv = T[t]; p = dict(CONF[c]); p.update(kw.pop("p", {})); p.update(SPEC=sp, NV=nv)
    return H(t + "-" + c + kw.pop("suffix", ""), "solve.cc", desc(sp, nv) + "; configuration " + c, params=p, **kw)
PROPS["P01"] = dict(harnesses=[S(t, c, p=dict(CHECK_UNSAT=0)) for t in ("R4", "units", "dups", "r6", "r10", "r16", "r30", "r60", "php54", "par5", "par12", "mix8", "mix15", "mix60", "bin10", "circ", "circ30", "chain20", "w5") for c in ("default", "inproc")] + [S(t, "inprocnopre", p=dict(CHECK_UNSAT=0)) for t in SUB])
PROPS["P01"]["harnesses"] += [S(t, c, p=dict(CHECK_UNSAT=0)) for t in ("R4", "r10", "r12", "r16", "r20", "sat14", "sat18", "mix15", "sub0", "sub5") for c in ("lrb", "fast")] + [S(t, c, p=dict(CHECK_UNSAT=0)) for t in ("r30", "r40", "par8", "php54", "par12") for c in ("lrb", "lrbpre", "static")]
PROPS["P02"] = dict(harnesses=[S(t, c, p=dict(CHECK_MODEL=0)) for t in ("R4", "units", "dups", "r5", "r8", "r12", "r20", "r40", "r50", "php43", "php65", "par8", "par12", "mix8", "mix30", "bin10", "w5", "w7") for c in ("default", "fast")] + [S(t, "default", p=dict(CHECK_MODEL=0)) for t in PLANT])
PROPS["P03"] = dict(harnesses=[S(t, c) for c in CONF for t in ("R4", "r12", "r40", "mix15", "php54", "par8")] + [S(t, "inprocnopre") for t in SUB] + [S(t, "inproc") for t in SUB[:4]])

# ---- IPASIR histories
def I(name, spec, nv, c="default", **kw):
    p = dict(CONF[c]); p.update(kw.pop("p", {})); p.update(SPEC=spec, NV=nv)
    return H(name + "-" + c, "ipasir.cc", "history of %d IPASIR phases (%d solve calls) over %d variables with %d symbolic signs, %d optional clauses, %d symbolic variable choices; all values; configuration %s" % (spec.count("|") + 1, len([x for x in spec.split("|") if x[:1] == "S"]), nv, spec.count("?"), spec.count("!"), spec.count("@"), c), params=p, **kw)
g3 = "A?1 ?2 3;-1 ?3;-2 -3 ?1|S?2 ?3|A?1 ?2;!-3|S?1|S"
HS = {
 "inc3": (g3, 3),
 "inc5": (hist(5, [("A", 9, (2, 3), 4, 1), ("S", 1, 1), ("A", 3, (1, 3), 2, 1), ("S", 0, 2), ("S", 0, 0)], 3), 5),
 "inc8": (hist(8, [("A", 22, (2, 4), 3, 0), ("S", 1, 1), ("A", 5, (2, 3), 2, 1), ("S", 2, 1), ("A", 3, (1, 2), 1, 1), ("S", 0, 0)], 7), 8),
 "inc12": (hist(12, [("A", 40, (3, 3), 3, 0), ("S", 0, 2), ("A", 6, (2, 3), 1, 0), ("S", 1, 1), ("A", 5, (2, 3), 1, 1), ("S", 1, 1), "S"], 2), 12),
 "inc20": (hist(20, [("A", 70, (2, 4), 2, 0), ("S", 2, 2), ("S", 1, 1), ("A", 10, (3, 3), 1, 0), ("S", 0, 1), ("A", 8, (2, 3), 0, 1), ("S", 2, 0)], 5), 20),
 "inc40": (hist(40, [("A", 160, (3, 3), 2, 0), ("S", 3, 2), ("A", 8, (3, 3), 1, 0), ("S", 2, 1), ("A", 8, (2, 3), 0, 0), ("S", 0, 0)], 5), 40),
 "grow": ("A?1 2;-2 ?3|S?1|A?3 4;-4 ?5;5 -1|S-5|A-5 6;?6 -7 -3;7 ?2|S7 ?1|S-6 2|S", 7),
 "elimback": ("A-1 -2 3;1 -3;2 -3;-3 -4 5;3 -5;4 -5;?5 6|S|A-3 ?7;!3|S?1|A?5 -7;!-1 -2|S?7|S", 7),
 "renew": ("A?1 2;?2 3;-1 -3|S?1|R|A-1 ?2;1|S?2|S", 3),
 "dup": ("A1 ?1 2;?2 2 3;1 -1|S?1 ?1|S2 ?2|S3 ?2", 3),
}
GC, GA, GN = selectors(php(3, 2), 6, 3, 1)
GC2, GA2, GN2 = selectors(rnd(5, 26, 0, 9), 5, 6, 2)
HF = {
 "grp": ("A" + GC + "|S" + GA + "|S" + GA, GN), "grp2": ("A" + GC2 + "|S" + GA2, GN2),
 "many": (hist(10, [("A", 30, (2, 3), 2, 1), ("S", 3, 4), ("S", 2, 4), ("S", 0, 5)], 4), 10),
 "contra": ("A?1 2;-2 3|S1 ?1 2|S?2 2 ?3|S-3 2 ?1", 3), "lvl0": ("A?1;-1 2;-2 3 4|S?2 ?1|S-3 -4 ?1|S?3 ?4 -2", 4), "free": ("A1 2;?1 -2|S4 ?5 ?1|S-4 4 1|S?2 5", 5),
 "chain": ("A-1 2;-2 3;-3 4;-4 5;-5 6;-6 7;?7 ?8|S?1 8 ?7 ?4|S1 -7 ?3|S?1 ?2 ?5 -6", 8),
 "deep": (hist(24, [("A", 96, (3, 3), 2, 0), ("S", 4, 2), ("S", 6, 2), ("S", 3, 1)], 6), 24),
}
# more assumptions than variables: repeated literals open empty decision levels
HF["rep"] = ("A1 ?2 3;-2 3 4;-2 -3 ?4;?5 -4 2;2 -3 4|S" + "1 " * 9 + "?2 5|S" + "1 ?1 " * 5 + "5|S" + "-5 " * 8 + "2 ?3", 5)
HF["rep2"] = (hist(7, [("A", 24, (3, 3), 3, 0)], 8) + "|S" + "1 " * 12 + "?2|S" + "?2 " + "2 " * 9 + "3 " * 9, 7)
PROPS["P04"] = dict(harnesses=[I(k, *v, c=c, p=dict(CHECK_FAILED=0)) for k, v in list(HS.items()) + list(HF.items()) for c in ("default", "inproc", "fast")])
PROPS["P05"] = dict(harnesses=[I(k, *v, c=c, p=dict(CHECK_VAL=0)) for k, v in list(HF.items()) + [(k, HS[k]) for k in ("inc3", "inc5", "inc8", "inc12", "inc20", "grow", "dup")] for c in ("default", "nopre")])
PROPS["P06"] = dict(harnesses=[I(k, *v, c=c, p=dict(CHECK_FAILED=0, CHECK_ANSWER=0)) for k, v in list(HS.items()) + [(k, HF[k]) for k in ("many", "contra", "lvl0", "free", "chain")] for c in ("default", "noelim")])
def L(n, spec): return "L%d|%s" % (n, spec)
PROPS["P07"] = dict(harnesses=[I("L%d-%s" % (n, k), L(n, sp), nv, c) for n in (1, 2, 3, 5, 100) for k, (sp, nv) in list(HS.items()) + [("r6", ("A" + T["r6"][0] + "|S", 6)), ("r12", ("A" + T["r12"][0] + "|S", 12)), ("r16", ("A" + T["r16"][0] + "|S", 16)), ("php54", ("A" + T["php54"][0] + "|S", 20)), ("par8", ("A" + T["par8"][0] + "|S", T["par8"][1]))] if not (n in (1, 5) and k in ("inc3", "renew", "dup", "elimback")) for c in (("nopre", "default") if n == 100 else ("nopre",))])
def LL(ns, cl, nv): return "|".join(["L%d" % n for n in ns] + ["A" + cl, "S"]), nv   # registered repeatedly
PROPS["P07"]["harnesses"] += [I("L%s-%s" % ("-".join(map(str, ns)), k), *LL(ns, *T[k]), c="nopre") for k in ("r6", "r12", "r16") for ns in ((100, 2), (100, 1), (1, 100), (3, 0), (5, 3, 2))]
PROPS["P07"]["harnesses"] += [I("relimit-%s" % k, "L9|A%s|S?1|L%d|S2|L4|A1 ?2|S|L1|S4" % (T[k][0], m), T[k][1], "nopre") for k in ("r6", "r12", "r16") for m in (1, 2)]
def TH(n, cl, nv, rest): return ("A" + cl + "|" + rest, nv), n
PROPS["P08"] = dict(harnesses=[I("T-" + k, "T?%d|" % n + sp, nv, c) for k, ((sp, nv), n) in {"inc3": (HS["inc3"], 9), "inc8": (HS["inc8"], 12), "inc20": (HS["inc20"], 12), "r6": TH(8, rnd(6, 26, 6, 1), 6, "S|S?1"), "r12": TH(12, rnd(12, 54, 5, 2), 12, "S?3|S"), "r16": TH(25, rnd(16, 70, 4, 6), 16, "S|S"), "php54": TH(30, php(5, 4, 3), 20, "S|S?1"), "par8": TH(20, parity(8, 4)[0], parity(8, 4)[1], "S|S"), "r40": TH(40, rnd(40, 185, 2, 2), 40, "S|S")}.items() for c in ("default", "fast", "inproc")])
# interrupted at any point, then called again without interruption: nothing of the interrupted call may remain
TA = {"r6": (rnd(6, 24, 6, 1), 6, 8), "r12": (rnd(12, 50, 5, 2), 12, 12), "r16": (rnd(16, 68, 4, 5), 16, 25), "par8": (*parity(8, 3), 20), "r40": (rnd(40, 160, 3, 3), 40, 40), "php54": (php(5, 4, 2), 20, 30), "elim": ("1 2 3;-1 2 ?4;!-1 ?3 5;1 -2 ?-4;-3 -4 5;?3 4 -5;2 5 6;-6 ?1", 6, 8)}
PROPS["P08"]["harnesses"] += [I("TT-%s-%d" % (k, i), "T?%d|A%s|%s" % (n, cl, rest), nv, c) for k, (cl, nv, n) in TA.items() for i, (rest, c) in enumerate((("S?1 2|T999|S|S?3", "default"), ("S1 ?3|T999|A?1 ?2;-3 ?4|S?2|S", "inproc"), ("S?2 -3|T?3|S?1|T999|S|A-1 ?3|S", "fast")))]
# ---- proofs
def D(t, c="default", own=0, **kw):
    sp, nv = T[t]; p = dict(CONF[c]); p.update(SPEC=sp, NV=nv, OWN=own)
    return H(("own-" if own else "") + t + "-" + c, "drat.cc", desc(sp, nv) + "; configuration " + c, params=p, **kw)
PROPS["P09"] = dict(harnesses=[D(t, c, 0) for t in ("R4", "units", "r5", "r12", "r16", "r30", "php43", "php54", "par5", "par8", "mix8", "mix15", "bin10", "circ") for c in ("default", "inprocnopre", "asymm")] + [D(t, c, 0) for t in ("r16", "r30", "mix15", "php54") for c in CONF if c not in ("default", "inprocnopre", "asymm")] + [D(t, "inprocnopre", 0) for t in SUB])
def K(n, sp, nv, pr, **kw):
    return H(n, "dratcheck.cc", "formula with %d symbolic parts over %d variables, proof text with %d symbolic literals, signs and line kinds; all values" % (sp.count("?") + sp.count("!"), nv, sum(pr.count(x) for x in "?~@%")), params=dict(SPEC=sp, NV=nv, PROOF=pr, **kw))
fill = ";".join("%d %d %d" % (-(3 + i % 4), 3 + (i + 1) % 4, -(3 + (i + 2) % 4)) for i in range(24))
PROPS["P10"] = dict(harnesses=[
 K("any2", "1 2;-1 2;?1 -2;!-1 -2", 2, "?~@ ~@ 0/~@ 0/0/"),
 K("any3", "1 2 3;1 2 -3;1 -2;-1 2;?-1 -2", 3, "~@ ~@ 0/?~@ 0/0/"),
 K("unk", "1 2;-1 ?2", 2, "?~% ~% 0/~% 0/0/"),
 K("rat", "1 2;1 -2;-1 2;-1 -2 ?3;-3", 3, "~@ ~@ 0/? ~@ ~@ 0/2 0/0/"),
 K("dup", "1 2;1 2;-1 ?2;-2 ?1;?1 -2 1", 2, "?1 2 0/?1 2 0/~@ 0/0/"),
 K("dup3", "1 2 7;1 2 7;-1 2;1 -2;-1 -2;1 2 -7;!-7;" + fill, 7, "?1 2 7 0/?1 2 7 0/?7 2 1 0/~@ 0/0/"),
 K("dele", "1 2 7;1 2 -7;-1 2;1 -2;-1 -2;" + fill, 7, "1 2 0/?1 2 7 0/?~1 ~2 0/~@ 0/0/"),
 K("pivot", "-1 3;-1 -3;-2 ?4;-4 5 6;-4 5 -6;-4 -5 6;-4 -5 -6;1 2 ?3 4", 6, "~1 ~2 0/-1 0/~5 0/0/"),
 K("pivot2", "-1 3;-1 -3;-2 4;-4 5 6;-4 5 -6;-4 -5 6;-4 -5 -6;1 2 3 4", 6, "~@ ~@ 0/-1 0/~5 0/0/"),
 K("sup", "1 2 3;1 2 -3;1 -2 ?3;1 -2 -3;-1 2 3;-1 2 -3;-1 -2 3;-1 -2 ?-3 4;-4;" + fill.replace("3", "7").replace("4", "8"), 8, "?1 ~2 0/1 2 0/?~@ 3 0/~@ 0/-1 0/0/"),
 K("must", "1 2;-1 2;1 -2;-1 -2", 2, "1 0/0/", MUST=1),
 K("must3", "1 2 3;1 2 -3;1 -2 ?3;1 -2 !3;-1 2 ?3;-1 2 !3;-1 -2 3;-1 -2 -3", 3, "1 2 0/?1_2_3 0/1 -2 0/?1_-2 3 0/1 0/-1 2 0/2 0/0/"),
 ] + [D(t, c, 1) for t in ("R4", "units", "r5", "r12", "r16", "r30", "php43", "php54", "par5", "mix8", "mix15", "bin10", "circ") for c in ("default", "inprocnopre", "asymm")])
# ---- DIMACS reader
def DS(n, sp, nv, **kw): return H("simp-" + n, "dratsimp.cc", desc(sp, nv) + ("; %d given lemmas" % (kw["LEARNT"].count(";") + 1) if "LEARNT" in kw else "") + "; proof lines written by simplification, options " + " ".join("%s=%s" % (k, v) for k, v in sorted(kw.items()) if k != "LEARNT"), params=dict(kw, SPEC=sp, NV=nv), time=40, exclude=[r"frontend/CandyBuilder\.cc$"])
def DP(n, text, **kw):
    a = kw.pop("args", []); k = dict(kw)
    return H(n, "parse.cc", "text template %r (o: any byte of %r, *: any byte, /: newline, _: blank)%s; every text" % (text, kw.get("ALPH", " -0123\n"), "; preceded by %d to %d filler bytes" % (kw["FILL"], kw["FILL"] + kw.get("FILLSYM", 0)) if "FILL" in kw else ""), params=dict(k, TEXT=text), args=a)
PARSE = [DP("any4", "oooo"), DP("any5", "ooooo", ALPH=" -012"), DP("bytes3", "***"), DP("bytes2", "1_**0/"), DP("cls", "1_oo_o_0/-oo_0"), DP("taut", "o1_o1_o2_o2_0/", ALPH="- "), DP("dups", "1_-2_o1_2_o_0", ALPH="-01 "),
 DP("hdr", "p_cnf_oo_oo/1_0"), DP("hdr2", "p_cnfoo_1/1o0"), DP("hdr3", "oo_cnf_2_1/1_0", ALPH="pc \n"), DP("hdr4", "p*cn*_1_1/1_0"), DP("com", "co1_0/o_0/c*/1_0"), DP("com2", "1_0/c_*o/2_0", ALPH="\n c0"), DP("com3", "1_c/2_0/o"),
 DP("eof", "1_2_0/-1oo"), DP("eof2", "1_2*"), DP("eof3", "p_cnf_1*"), DP("num", "1o7374182o_0", ALPH="03"), DP("num2", "o2147483648o_0", ALPH="-0 "), DP("num3", "-o8446744073709551617_0", ALPH="10"), DP("sign", "o-o1_0", ALPH="-+ 1"), DP("sep", "1o2o0o3_0", ALPH="\t\n\r\v\f "),
 DP("edge", "1_-2_0/o3_0/", ALPH="- 1", FILL=1048566, FILLSYM=7, args=["--steps=400000000"]), DP("line", "1_0/o2_0/", ALPH="- ", FILL=1048570, FILLKIND=1, FILLSYM=3, args=["--steps=400000000"])]
PROPS["P11"] = dict(harnesses=[h for h in PARSE if h["name"] in ("any5", "cls", "taut", "dups", "hdr", "hdr2", "com", "com2", "sep", "sign", "num", "edge", "line", "bytes3", "eof")])
PROPS["P12"] = dict(harnesses=[h for h in PARSE if h["name"] in ("any4", "any5", "bytes3", "bytes2", "hdr", "hdr2", "hdr3", "hdr4", "com", "com3", "eof", "eof2", "eof3", "num", "num2", "num3", "sign", "edge")] + [DP("trunc", "p_cnf_2_1/1_-2*", FILL=1048560, FILLSYM=7, args=["--steps=400000000"])])

# ---- command line
def O(n, a, **kw): return H(n, "options.cc", "command line %r with symbolic characters @ from %r; every text" % (a, kw.get("ALPH", "-0129 a=")), params=dict(ARGS=a, **kw))
PROPS["P13"] = dict(harnesses=[O("int", "-tint=@@@ f"), O("int2", "x -tint=1@@ -tint=@", ALPH="-0129x"), O("neg", "-tint=-@@"), O("full", "-tfull=@147483@48", ALPH="2-36"), O("full2", "-tfull=@@94967296 y", ALPH="42-"), O("long", "-tlong=@000000@00@", ALPH="5401 "), O("dbl", "-tdbl=@@@", ALPH="0145.-e"),
 O("bool", "@@o-tb", ALPH="-n"), O("bool2", "-@@ -tb@ z", ALPH="tbc-"), O("bool3", "-no-tb@ -no-@b", ALPH="tcb"), O("name", "-t@@@=1@", ALPH="intb="), O("order", "a@ -tb b@ -tint=@", ALPH="0-1"), O("nostrict", "-x@ q -tint=@ -tb@ @", ALPH="0c-a", STRICT=0), O("str", "-tstr=@@@", ALPH="a-= "),
 O("many", "-tint=@ a -tb @ -tdbl=1 -tint=2@ c d", ALPH="0-1"), O("many2", "a -tb -tint=@ -no-tb b@ -tstr=x c -tint=3 d e", ALPH="0-1"),
 O("unknown", "@@@ f", ALPH="-a="), O("longstr", "f", LONG=252, LONGSYM=7), O("longstr2", "f", LONG=600, LONGSYM=1)])

# ---- gate recognition
X = "1;-1 2 3;-1 -2 -3;1 -2 3;1 2 -3;"      # output 1 = xor(2, 3): uses both polarities of 2
GF = {
 "xor3": (X + "-2 4 5 ?6;-2 ?4 -5 -6;-2 ?4 5 -6;-2 4 ?5 6;2 -4 5 ?6;2 4 -5 ?6;2 ?4 5 -6;2 -4 -5 -6", 6),
 "xor2": (X + "-2 ?4 ?5;-2 ?4 ?5;2 ?4 ?5;2 ?4 ?5", 5),
 "and": (X + "-2 ?4;-2 ?5;!-2 6;2 ?4 ?5 -6;!2 ?4 ?5", 6),
 "or": (X + "-2 ?4 ?5 6;2 ?4;2 ?5;!2 ?6;!-2 ?4", 6),
 "eq": (X + "-2 ?4;2 ?4;!-2 ?5;!2 ?5;!-4 ?5 6", 6),
 "ite": (X + "-2 ?4 5;-2 -4 ?6;2 ?4 -5;2 -4 ?6;!-2 5 6;!2 -5 -6", 6),
 "nobwd": (X + "-2 ?4;-2 ?5;!-2 ?4 6;!2 ?5 6", 6),
 "dups": (X + "-2 4 5 6;-2 4 5 ?6;-2 -4 ?5 -6;-2 ?4 -5 -6;2 4 5 -6;2 4 5 ?6;2 -4 -5 6;2 ?4 -5 6", 6),
 "mono": ("1 ?2;!-1 3 4;-2 ?3 5;-2 ?4;!3 -4 5;!-5 ?3", 5),
 "noroot": ("-1 ?2 ?3;1 -2;1 ?3;-2 ?4 5;2 -4;!2 -5;!-3 4", 5),
}
for i, (a, b, c, d, e) in enumerate([(3, 4, 5, 1, 2), (4, 8, 6, 2, 2), (5, 14, 5, 3, 3), (8, 30, 4, 4, 2), (6, 20, 6, 5, 0)]): GF["circ%d" % i] = circuit(a, b, c, d, e)
GF["circ6"] = circuit(4, 8, 3, 2, 2); GF["circ7"] = circuit(4, 14, 1, 6, 2)
MN = {0: "pat", 1: "sem", 10: "patsem", 2: "hol", 11: "all"}
def G(k, m, **kw):
    sp, nv = GF[k]; return H(k + "-" + MN[m], "gates.cc", desc(sp, nv) + "; recognition method " + MN[m], params=dict(SPEC=sp, NV=nv, METHOD=m), **kw)
PROPS["P14"] = dict(harnesses=[G(k, m) for k in GF if k not in ("circ6", "circ7") for m in (0, 10, 1, 11)])
# ---- propagation and conflict analysis, driven directly
def C(n, sp, nv, **kw):
    p = dict(kw); return H(n, "cdcl.cc", desc(sp, nv) + "; up to %d symbolic decisions and %d conflicts" % (kw.get("DEC", 4), kw.get("CONF", 2)), params=dict(p, SPEC=sp, NV=nv), time=40)
CF = {
 "small": ("?1 ?2 3;-1 ?3;!-2 -3 ?1;?1 -2", 3, 3, 3), "t4": ("?1 2 3;-1 2 ?4;1 ?3 4;-2 -3 -4;-1 -2 ?3", 4, 3, 3), "t5": (rnd(5, 14, 3, 5), 5, 3, 3), "t6": (rnd(6, 22, 2, 1), 6, 3, 3), "w6": (mixed(6, {2: 5, 4: 6, 5: 4}, 3, 2), 6, 3, 3),
 "bin7": (mixed(7, {2: 12, 3: 4}, 2, 4), 7, 3, 3), "t8": (rnd(8, 32, 0, 3), 8, 3, 4), "chain9": (chain(9, 0, 1), 9, 2, 4), "t10": (rnd(10, 42, 0, 4), 10, 2, 6), "w9": (mixed(9, {2: 6, 3: 10, 5: 8, 7: 4}, 1, 8), 9, 2, 4), "unit": ("?1;-1 ?2;1 3 ?4;-3 ?4 5;-4 -5", 5, 2, 3), "php43": (php(4, 3, 0), 12, 2, 6), "par5": (parity(5, 0)[0], parity(5, 0)[1], 2, 4), "mix15": (mixed(15, {2: 16, 3: 36, 4: 6, 6: 2}, 0, 5), 15, 2, 6),
}
PROPS["P15"] = dict(harnesses=[C(k + ("-static" if s else ""), sp, nv, DEC=d, CONF=c, STATICP=s, CHECK_ANA=0) for k, (sp, nv, d, c) in CF.items() for s in (0, 1)])
LONG = "!" + " ".join(("?-" if i in (7, 256, 257, 258) else "-") + str(i + 1) for i in range(262)) + ";!262 ?261 " + " ".join("-%d" % (i + 1) for i in range(0, 260, 3)) + ";-1 ?2 3"
PROPS["P15"]["harnesses"] += [H("long" + ("-static" if st else ""), "cdcl.cc", "clauses of 262 and 89 literals, 5 symbolic signs, optional; decisions falsify them one literal after the other; 1 conflict", params=dict(SPEC=LONG, NV=262, DEC=0, CONF=1, STATICP=st, CHECK_ANA=0, SKIP=257), time=40, cflags=["-DH_MAXV=264"]) for st in (0, 1)]
EV = [("small", 2, 3), ("t5", 1, 2), ("t6", 1, 2), ("w6", 2, 3), ("w9", 1, 2), ("unit", 2, 3), ("t10", 0, 3), ("php43", 0, 2), ("mix15", 0, 3)]
PROPS["P15"]["harnesses"] += [C(k + "-ev" + ("-static" if s else ""), CF[k][0], CF[k][1], DEC=d, CONF=c, EVENTS=1, STATICP=s, CHECK_ANA=0) for k, d, c in EV for s in (0, 1)]
PROPS["P16"] = dict(harnesses=[C(k + ("-static" if s else ""), sp, nv, DEC=d, CONF=c, STATICP=s, CHECK_PROP=0) for k, (sp, nv, d, c) in CF.items() for s in (0, 1)])
LONG2 = "-1 " + " ".join(("?-" if i in (5, 258) else "-") + str(i) for i in range(2, 262)) + ";!1 " + " ".join(("?-" if i == 260 else "-") + str(i) for i in range(2, 263))
PROPS["P16"]["harnesses"] += [H("long" + ("-static" if st else ""), "cdcl.cc", "two clauses of 261 and 262 literals, 3 symbolic signs, one optional; learnt clause over 261 levels", params=dict(SPEC=LONG2, NV=262, DEC=0, CONF=1, STATICP=st, CHECK_PROP=0), time=40, cflags=["-DH_MAXV=264"]) for st in (0, 1)]
# ---- simplification, driven directly
def M(n, sp, nv, **kw):
    return H(n, "simp.cc", desc(sp, nv) + ("; %d learnt clauses" % (kw["LEARNT"].count(";") + 1) if "LEARNT" in kw else "") + "; options " + " ".join("%s=%s" % (k, v) for k, v in sorted(kw.items()) if k not in ("LEARNT", "CHECK")), params=dict(kw, SPEC=sp, NV=nv), time=40, exclude=[r"frontend/CandyBuilder\.cc$"])
MF = {
 "nest": ("?1 ?2 ?3;?1 ?2 ?3 4;!?1 -2 ?5", 5), "nest4": ("?1 ?2 3 4;?1 ?2 ?3 ?4 5 6 7 8;!-5 6 ?1", 8), "nest2": ("?1 ?2;?1 ?2 ?3;?2 ?3 4;?1 -4", 4), "vars": ("@ @;@ 1 2;!-1 3", 3), "vars2": ("@ @ 2;1 @ -2 3;!3", 3), "units": ("?1;?1 ?2 3;?2 -3;!-2 3 4;!-1 4", 4),
 "dupl": ("1 2 3;?1 ?2 ?3;?3 ?1 ?2;-1 ?4", 4), "r4": ("?1 ?2 2 3;-1 2 4;1 ?2 3;?1 -2 ?4;2 3 -4;!-3 ?4 1", 4), "t6": (rnd(6, 16, 8, 2), 6), "b5": (mixed(5, {2: 7, 3: 4}, 9, 3, 1), 5), "m7": (mixed(7, {2: 5, 3: 8, 5: 5, 6: 2}, 8, 4, 1), 7), "m9": (mixed(9, {2: 6, 3: 12, 4: 5, 7: 3}, 7, 6, 2), 9), "m12": (mixed(12, {2: 10, 3: 20, 4: 10, 8: 6}, 6, 7, 2), 12),
}
ML = {"nest": "?1 ?2 ?3;1 ?2", "nest4": "?1 ?2 3 ?4;?1 2 3 4 5", "nest2": "?1 ?2 4;?3 4 1", "vars": "@ @ 3", "units": "?2 3 ?4;1 2 -3", "dupl": "1 ?2 3;1 2 ?3 4", "m7": "1 2 ?3;?4 5 6;2 3 ?4 5"}
PROPS["P17"] = dict(harnesses=[M(k, sp, nv, ROUNDS=2) for k, (sp, nv) in MF.items()] + [M(k + "-learnt", MF[k][0], MF[k][1], LEARNT=v, LBD=l) for k, v in ML.items() for l in (0,)] + [M(k + "-asymm", sp, nv, RED=1, ROUNDS=2, SUB=s) for s in (0, 1) for k, (sp, nv) in MF.items() if s or k[0] in "rtbmu"])
MF["dupl5"] = ("1 ?2 3;?1 2 ?3;-1 ?4 5;2 3 4 ?5;2 ?3 4", 5); ML["dupl5"] = "1 ?2 3;?2 3 4;-1 ?4 5"
MF["rup"] = ("1 2 3 4 ?5;1 2 3 4 -5;1 2 3 -4 5;1 2 ?3 -4 -5;-1 6 7;-2 6 7;-3 ?6 7", 7); ML["rup"] = "1 2 ?3;?6 7 3"
MF["rup2"] = ("1 2 3 4 5 6;1 2 3 -4 5 ?7;1 2 ?3 4 -5 7;-1 6 8;-2 7 8;-3 6 7", 8); ML["rup2"] = "1 2 3;1 ?2 5;?6 7 8"
PROPS["P17"]["harnesses"] += [M(k + s, sp, nv, ROUNDS=2) for s in ("",) for k, (sp, nv) in MF.items() if k in ("dupl5", "rup", "rup2")] + [M(k + "-learnt%d%s" % (l, "f" if lf else ""), MF[k][0], MF[k][1], LEARNT=v, LBD=l, LFIRST=lf, ROUNDS=2) for k, v in ML.items() for l, lf in ((0, 1), (1, 1), (1, 0)) if (l, lf) != (1, 0) or k in ("dupl", "dupl5", "rup", "nest")] + [M(k + "-asymmf", MF[k][0], MF[k][1], LEARNT=ML[k], RED=1, LFIRST=1) for k in ML if k != "rup2"]
PROPS["P09"]["harnesses"] += [DS(k + n, MF[k][0], MF[k][1], LEARNT=v, ROUNDS=2, **kw) for k, v in ML.items() for n, kw in (("", {}), ("-lf", dict(LFIRST=1)), ("-asymm", dict(RED=1)), ("-ve", dict(VE=1, LFIRST=1)))] + [DS(k + "-all", MF[k][0], MF[k][1], ROUNDS=2, RED=1, VE=1) for k in MF if k not in ("m7", "m9", "m12")]
PROPS["P18"] = dict(harnesses=[M(k + "-ve%d%s" % (m, "s" if s else ""), sp, nv, VE=1, ROUNDS=2, SUB=s, MODE=m) for k, (sp, nv) in MF.items() for m in (0, 1) for s in (0, 1)] + [M(k + "-froz%d" % m, MF[k][0], MF[k][1], VE=1, SUB=0, MODE=m, FROZEN=2) for k in ("r4", "t6", "b5", "m9") for m in (0, 1)] + [M(k + "-lim%d" % m, MF[k][0], MF[k][1], VE=1, SUB=0, MODE=m, CLLIM=3) for k in ("t6", "m9") for m in (0, 1)] + [M(k + "-vel%d" % m, MF[k][0], MF[k][1], VE=1, MODE=m, LEARNT=ML[k]) for k in ML for m in (0, 1)])
VF = {"chain": ("?1 2 3;-1 -2 ?4;?2 -3 5;-4 5 ?6;-5 -6 7;6 ?7 8;-7 -8 ?1", 8), "tree": ("-1 2 3;1 ?4;-2 ?4 5;2 -5;-3 5 ?6;3 -6;-4 6 ?7;4 -7", 7), "six": ("?1 2;-2 3;-3 ?4;-4 5;-5 ?6;-6 1 7;-7 ?2 -8", 8), "two": ("?1 2;-1 ?3;1 -2 3;4 5 6;-4 ?5;-5 6 ?7;-6 7;4 -7", 7), "three": ("1 2;?1 -2 3;4 ?5;-4 6;-6 ?5 4;7 ?8;-7 9;-8 -9 7;?9 8", 9), "gates": ("1 -2 -3;-1 2;-1 3;4 -1 ?5;-4 1;-4 -5;6 -4 -7;-6 4;-6 ?7;?6 8", 8)}
PROPS["P18"]["harnesses"] += [M("%s-ve%d" % (k, m), sp, nv, VE=1, SUB=0, MODE=m, ROUNDS=r) for k, (sp, nv) in list(VF.items()) + [(k, MF[k]) for k in ("r4", "b5", "t6", "m7", "units")] for m, r in ((0, 2), (1, 1), (2, 1), (3, 1)) if k in VF or m >= 2]
# whole-solver companions: these decide the same property through the public interface, independent of internal names
PROPS["P15"]["harnesses"] += [S(t, c) for t in ("r12", "mix15", "php54") for c in ("fast", "static")]
PROPS["P16"]["harnesses"] += [I("L100-" + k, L(100, "A" + T[k][0] + "|S"), T[k][1], "fast") for k in ("r12", "r16", "php54")]
PROPS["P17"]["harnesses"] += [S(t, "default") for t in PLANT] + [S(t, "inprocnopre") for t in SUB[:4]]
PROPS["P18"]["harnesses"] += [I(k, *HS[k]) for k in ("elimback", "inc5", "inc8")] + [S(t, "default") for t in ("R4", "mix8", "circ")]
# ---- the program
def MN_(n, opts, t=None, **kw):
    if t: sp, nv = T[t]; p = dict(SPEC=sp, NV=nv); b = desc(sp, nv)
    else: p = {}; b = "text template %r (o: any of %r)" % (kw.get("TEXT"), kw.get("ALPH", "x0"))
    p.update(kw); return H(n, "main.cc", b + "; command line: candy " + opts + " FILE", params=dict(p, OPTS=opts), time=40, cflags=["-D__SANITIZE_ADDRESS__"])
T["bin10b"] = (mixed(10, {2: 18, 3: 8}, 8, 4, 1), 10)
PO = {"model": "-model", "test": "-test-model -test-proof", "nopre": "-model -no-pre -no-extra-bump", "lrb": "-use-lrb -inprocessing=1 FILE -model", "cert": "-test-proof FILE -certified-output=other.drat -model", "rsar": "-rsar-enable -model", "rsar1": "-rsar-enable -rsar-min-gatecount=1 -rs-rounds=2048 -model", "static": "-static-propagate -no-elim FILE -test-model -test-proof", "rsil": "-rsil-enable -rsil-min-gate-frac=0 -rs-rounds=2048 -model", "rsilvan": "-rsil-enable -rsil-mode=vanishing -rsil-van-halflife=2 -rsil-min-gate-frac=0 -rs-rounds=2048 FILE -model", "rsilbud": "-rsil-enable -rsil-mode=implicationbudgeted -advice-size=2 -rsil-imp-budgets=2 -rsil-min-gate-frac=0 -rs-rounds=2048 -model", "sort": "-sort-variables -model -verb=0"}
PROPS["P19"] = dict(harnesses=[MN_(t + "-" + n, o, t) for t in ("R4", "r6", "mix8", "bin10b", "circ", "php43", "par5") for n, o in PO.items() if t in ("r6", "circ", "par5") and (n[:4] != "rsil" or (t, n) in (("circ", "rsil"), ("par5", "rsilvan"), ("par5", "rsilbud"))) or n in ("model", "test")] + [
  MN_("stats", "-gate-stats", "mix8", QUIET=1), MN_("limit", "-test-limit=7", "mix8", QUIET=1), MN_("limit2", "-test-limit=8 -model", "mix8"),
  MN_("bad1", "", TEXT="p_cnf_2_2/1_2_0/-x_0/", BAD=1), MN_("bad2", "-model", TEXT="p_cnf_2_2/1_2_0/1_-2", BAD=1), MN_("bad3", "FILE -test-model", TEXT="p_cnf_2_2/1_o_0/", ALPH="x-#", BAD=1)])
PROPS["P20"] = dict(harnesses=[])
def Z(n, sp, nv, **kw): return H(n, "min.cc", desc(sp, nv) + "; every model of the formula; " + (" ".join(sorted(k.lower() for k in kw)) or "plain") + " minimisation", params=dict(kw, SPEC=sp, NV=nv), time=40)
def vc(n, es, sgn="", sy=0): return ";".join("%s%s%d %d" % (sgn, "?" if i < sy else "", a, b) for i, (a, b) in enumerate(es))
ZF = {"R3": ("?1 ?2;!?2 ?3;?1 3;!?-3 2 1", 3), "r5": (rnd(5, 9, 4, 2), 5), "m7": (mixed(7, {2: 6, 3: 7}, 3, 2, 2), 7), "vc7": ("?1 2;!1 3;2 4;!3 4;3 5;4 6;5 6;!6 7;?5 7", 7), "star8": ("?1 2;1 3;1 4;!1 5;2 6;3 7;?4 8;!5 8", 8), "hit8": ("1 2 3;3 4 5;5 6 ?1;!2 4 6;1 4 7;?7 8;2 5 8", 8), "units": ("?1;!2;?2 3;-3 1 4;!?4 2", 4)}
PROPS["P20"]["harnesses"] += [Z(k + s, sp, nv, **kw) for k, (sp, nv) in ZF.items() for s, kw in (("", {}), ("-min", dict(MINIMAL=1)))]
PROPS["P20"]["harnesses"] += [Z(k + s, *GF[k], **kw) for k in ("and", "or", "eq", "ite", "xor2", "mono", "noroot", "nobwd", "circ0", "circ6", "circ7") for s, kw in (("-pruned", dict(PRUNED=1)), ("-proj", dict(PRUNED=1, PROJECT=1)), ("-projonly", dict(PROJECT=1)))]
PROPS["P20"]["harnesses"] += [MN_(t + "-" + n, o, t) for t in ("r6", "mix8", "bin10b") for n, o in (("pmin", "-model -minimize"), ("pminmin", "-model -minimize -minimize-minimal FILE"))]

# ---- random simulation
def R_(n, sp, nv, mode="prop", **kw): return H(n, "sim.cc", desc(sp, nv) + "; " + {"prop": "all values of 12 of the 2048 bits per input, the others fixed", "run": "all input assignments simulated, facts checked over all assignments", "part": "all choices of patterns", "misc": "all choices"}[mode], params=dict(kw, SPEC=sp, NV=nv, MODE=mode), time=40)
PG = {
 "pg4": ("1;-1 ?2;-1 ?3;-2 ?4 5;-3 ?4;-3 6;!-4 ?7 8;!-4 -7", 8),
 "pgbwd": ("1;-1 ?2 3;-2 4;-2 ?5;!2 -4 -5 6;-3 ?6 7;-3 4 5;!3 -6", 7),
 "const": (X + "-2 ?4 5;-2 -4 ?5;-2 ?4 -5;-2 -4 -5;2 ?4 ?5;3 -4;3 -6;-3 4 6;-4 5 ?6;4 -5;4 ?6", 6),
 "eqs": ("1;-1 2 3 4;-1 -2 -3 4;-1 2 -3 -4;-1 -2 3 -4;1 -2 3 4;1 2 -3 4;1 2 3 -4;1 -2 -3 -4;-2 ?5;-2 ?6;2 -5 -6;2 5 -6;-3 5;-3 6;3 -5 -6;-4 ?5 ?6;4 -5;4 -6", 6),
}
for i, (a, b, c, d, e) in enumerate([(4, 6, 4, 7, 2), (5, 9, 5, 3, 3), (6, 12, 6, 5, 2)]): PG["circuit%d" % i] = circuit(a, b, c, d, e)
for k in ("and", "or", "ite", "xor2", "xor3", "mono", "nobwd", "noroot", "circ0", "circ1", "circ2"): PG[k] = GF[k]
PROPS["P21"] = dict(harnesses=[R_(k + n, *PG[k], **kw) for k in PG for n, kw in (("", {}), ("-rec", dict(REC=1, REREAD=2)), ("-nm", dict(FILTER=1)), ("-set", dict(FILTER=2, ROUNDS=2))) if n in ("", "-nm") or k in ("pg4", "eqs", "circuit1", "ite", "mono", "const")] + [
  R_(k + n, *PG[k], mode="run", **kw) for k in PG for n, kw in (("-run", {}), ("-run3", dict(ROUNDS=2, ODD=7, SKIP=1)), ("-run4lin", dict(ROUNDS=4, REC=1, COMPRESS="lin")), ("-run2nm", dict(ROUNDS=2, FILTER=1, COMPRESS="null"))) if n == "-run" or k in ("pg4", "const", "eqs", "circuit0", "mono") or (n != "-run3" and k in ("circuit1", "xor2"))] + [
  R_("part" + n, "1", 1, mode="part", **kw) for n, kw in (("3x2", dict(VARS=3, ROUNDS=2, EACH=1)), ("2x3", dict(VARS=2, ROUNDS=3, PATTERNS=4, COMPRESS="lin", EACH=1)), ("4x1", dict(VARS=4, ROUNDS=1, PATTERNS=5)), ("3x2lin", dict(VARS=3, ROUNDS=2, COMPRESS="lin")), ("3x2null", dict(VARS=3, ROUNDS=2, COMPRESS="null")), ("2x4", dict(VARS=2, ROUNDS=4, PATTERNS=3)))] + [R_("misc", "1", 1, mode="misc")] + [R_("part%dw%d%s" % (v, w, c), "1", 1, mode="part", VARS=v, ROUNDS=r, PATTERNS=7, WORD=w, COMPRESS=c, EACH=e) for v, r, w, c, e in ((2, 2, 0, "", 1), (2, 2, 31, "", 1), (2, 2, 0, "lin", 0), (2, 2, 17, "null", 0), (3, 1, 0, "", 1), (3, 1, 31, "null", 1), (3, 1, 13, "", 1))])

for _h in PROPS["P21"]["harnesses"]:
    if _h["name"] in ("circuit1-set", "circuit1-rec", "circ1", "circ2", "circuit2-nm"): _h["thorough_only"] = 1

# ---- abstraction refinement
def A_(n, b, mode, **kw): return H(n, "rsar.cc", b, params=dict(kw, MODE=mode), time=40)
AF = {"e3": dict(EQ="1 ?2 3", BB="4 ?5", NV=5), "e5": dict(EQ="1 ?2 -3 4 5", NV=6), "e23": dict(EQ="1 -2;3 ?4 5", BB="?6", NV=6), "b4": dict(BB="?1 ?2 3 -4", NV=4), "e4": dict(EQ="2 ?4 1 3", BB="-5", NV=5, STEPS=3), "e6": dict(EQ="6 2 ?4 -1 3 5", NV=6, STEPS=1)}
PROPS["P22"] = dict(harnesses=[A_(k, "conjectures %s; every subset of variables withdrawn at each of %d steps; all assignments" % (" / ".join("%s" % v for q, v in kw.items() if q in ("EQ", "BB")), kw.get("STEPS", 2)), "strat", **kw) for k, kw in AF.items()] + [A_("e3-again", "variables withdrawn repeatedly; all assignments", "strat", ONCE=0, **AF["e3"])] + [
  A_(k + "-dep%d%s" % (l, "" if pr else "s"), desc(*PG[k]) + "; %d dependency limits, the first 0-5" % l, "heur", SPEC=PG[k][0], NV=PG[k][1], LEVELS=l, PROBE=pr) for k in ("pg4", "eqs", "circuit0", "mono", "and", "circ0") for l, pr in ((1, 1), (2, 1), (2, 0), (3, 0), (0, 0)) if k in ("pg4", "circuit0") or l == 2] + [
  A_(k + "-solve%d%s" % (m, "d" if d else ""), desc(*T[k]) + "; conjectures %s / %s; at most %d refinements" % (e, b, m), "solver", SPEC=T[k][0], NV=T[k][1], MAXREF=m, DROP=d, EQ=e, BB=b) for k, e, b in (("r6", "1 ?2 3", "4 ?5"), ("mix8", "1 2;3 -4 ?5", "6 ?7"), ("php43", "1 ?5;2 -3", "?9"), ("bin10b", "?1 2 -3", "?4 8")) for m, d in ((10, 0), (10, 1), (1, 0), (2, 1)) if k != "php43" or not d or m == 2])

# ---- clause storage
def B_(n, b, mode="history", args=[], **kw): return H(n, "db.cc", b, params=dict(kw, MODE=mode), time=40, args=args)
PROPS["P23"] = dict(harnesses=[B_("hist-" + k, "%s; every history of %d operations of %s" % (desc(sp, nv) if sp else "initially empty", st, {"c": "create", "r": "remove", "s": "strengthen", "o": "reorganise", "d": "reduce"} and ops), SPEC=sp, NV=nv, STEPS=st, OPS=ops, **kw) for k, sp, nv, st, ops, kw in (
  ("all", "?1;1 ?2;?1 2 -3;-1 2 3 4", 4, 3, "crsod", dict(MINLEN=1, MAXLEN=3, SIGNS=0)), ("empty", "", 4, 3, "cro", {}), ("bin", "?1 2;2 1;-1 ?2;1 3", 3, 4, "rso", {}), ("str", "1 2 3 4;?1 -2 3;-3 4", 4, 4, "so", {}), ("red", "1 2 3;?1 -2", 5, 7, "cccdcdo", dict(MINLEN=5, MAXLEN=5, SIGNS=0, SEQ=1)), ("redmed", "1 2 3;?1 -2", 5, 7, "ccccdod", dict(MINLEN=5, MAXLEN=5, SIGNS=0, MEDIAN=1, SEQ=1)), ("red0", "1 2 3", 4, 6, "cccdod", dict(MINLEN=4, SIGNS=0, PLBD=0, SEQ=1)), ("redstr", "1 2 3 4", 4, 6, "ccsdod", dict(MINLEN=3, SIGNS=0, PLBD=1, SEQ=1)), ("remred", "?1 2 3 4", 4, 6, "cccrdo", dict(MINLEN=3, SIGNS=0, PLBD=1, SEQ=1)))] + [
  B_("pages%d" % s, "%d clauses of up to 300000 literals on several pages; every choice of 2 moves, absorptions or imports and removals" % k, "pages", START=s, CLAUSES=k) for s, k in ((0, 5), (3, 5), (6, 4), (8, 4))] + [
  B_("long%d" % n, "one clause of %d literals, up to 3 symbolic units" % n, "long", LEN=n) for n in (65535, 65536, 65537, 66000)] + [B_("solve%d-%d" % (n, p), "one clause of %d literals, up to 3 symbolic units, solved" % n, "long", LEN=n, SOLVE=1, FREE=2, PRE=p, args=['--steps=600000000']) for n, p in ((65537, 0), (65537, 1))])

# ---- branching
def W_(n, br, sp, nv, **kw): return H(n, "branch.cc", desc(sp, nv) + "; " + br + (" with conjectures %s / %s" % (kw.get("EQ", ""), kw.get("BB", "")) if br[0] in "rv" and br != "vsids" or br[0] == "b" else "") + "; up to %d symbolic decisions, %d conflicts, %d restarts" % (kw.get("DEC", 3), kw.get("CONF", 2), kw.get("RESTARTS", 1)), params=dict(kw, SPEC=sp, NV=nv, BRANCH=br), time=40)
WF = {"t5": ("?1 2 ?3;-1 3 4;!?2 -3 ?5;-4 5 1;-2 -5 ?4", 5), "t6": (rnd(6, 22, 2, 1), 6), "b7": (mixed(7, {2: 8, 3: 8}, 2, 4), 7), "php43": (php(4, 3, 0), 12), "free": ("1 ?2 3;?4 5", 6)}
WC = {"a": dict(EQ="1 ?2;?3 4 5", BB="-6"), "b": dict(EQ="?1 ?5 -3", BB="?2"), "c": dict(EQ="?1 2;?3 4", BB="?5 ?6")}
PROPS["P24"] = dict(harnesses=[W_("kinds", "kinds", "1", 1)] + [W_("%s-%s%s" % (b, k, x), b, *WF[k], **kw) for b in ("vsids", "lrb") for k in WF for x, kw in (("", dict(DEC=2 if k != "php43" else 1)), ("-deep", {}), ("-nodec", dict(NODEC=2, DEC=1, SETPOL=1)), ("-sort", dict(SORTV=1, DEC=2)), ("-bump", dict(EXTRABUMP=1, CONF=4, DEC=1))) if x == "" or k in ("t5", "b7") and (b == "vsids" or x != "-bump")] + [
  W_("%s%d-%s%s" % (b, n, k, c), b + str(n), *WF[k], DEC=d, NODEC=nd, **WC[c]) for b in ("rsil", "budget", "vanish") for n in (2, 3) for k, c, nd, d in (("t6", "a", 0, 1), ("b7", "b", 0, 1), ("free", "c", 1, 1), ("free", "a", 0, 1), ("b7", "a", 0, 2))] + [
  W_("budget3-long", "budget3", *WF["b7"], EQ="1 2 3", BB="5", DEC=1, CONF=6, RESTARTS=3, LIMIT=1), W_("vanish3-long", "vanish3", *WF["b7"], EQ="1 2 3", BB="5", DEC=1, CONF=6, RESTARTS=3, LIMIT=8), W_("rsil3-nobb", "rsil3", *WF["t6"], EQ="1 2", BB="?3 4", BBON=0, DEC=1)])
PROPS["P24"]["harnesses"] += [W_("%s-%s-long" % (b, k), b, *T[k], DEC=1, CONF=40, RESTARTS=0) for b in ("vsids", "lrb") for k in ("r12", "r16", "r30", "php54", "par8", "mix15", "sub6")]
for _h in PROPS["P24"]["harnesses"]:
    if _h["name"].endswith("-deep") or _h["name"].endswith("-b7a") or _h["name"] in ("lrb-t5", "lrb-php43"): _h["thorough_only"] = 1

# ---- and-inverter graphs
def AG(k, m, **kw):
    sp, nv = kw.pop("F", None) or GF[k]; return H(k + ("-" + MN[m] if m is not None else "-main"), "aig.cc", desc(sp, nv) + ("; recognition method " + MN[m] if m is not None else "; the program cnf2aig"), params=dict(kw, SPEC=sp, NV=nv, LIB=int(m is not None), **({} if m is None else dict(METHOD=m))), time=40, bcflags=["-fno-strict-return"], ncflags=["-fno-sanitize=return"])
AF = {"free3": ("@ @;@ @ ;!?1 ?3;!?2", 3), "free2": ("!@;@ @;!@ ?1;!@", 2), "units": ("?1;?2 ?3;!?1 3;!?3 ?4", 4), "triv": ("!?1 -1;!E;!?2", 2), "big": ("1;-1 2 3;-1 -2 -3;1 -2 3;1 2 -3;-2 ?4 5 6 7;2 ?4;2 -5;2 -6;2 -7;-3 ?5;-3 6;3 ?5 -6;!?7 4", 7), "neg": ("1;?1 2 3;-2 4 5;2 -4;2 ?5;-3 ?4;-3 ?2 5;!3 4 -2;!-4 5 3", 5)}
PROPS["P25"] = dict(harnesses=[AG(k, None, F=AF[k]) for k in AF] + [AG(k, None) for k in ("xor3", "and", "ite", "mono", "noroot", "circ0")] + [AG(k, m) for k in GF for m in (0, 11) if k not in ("circ6", "circ7")])

# ---- the formula store
def FO(n, mode, sp, nv, **kw): return H(n, "formula.cc", desc(sp, nv) + "; " + {"print": "printed and read back", "check": "every partial assignment checked", "rename": "variables renamed", "equal": "compared with a second formula", "degree": "every renaming, complementing and clause order"}[mode], params=dict(kw, SPEC=sp, NV=nv, MODE=mode), time=40)
FF = {"a": ("@ @;!@ @;!?1 2 ?3", 3), "b": ("?1 ?3 -6;!?2;?6 ?6 2;!-5 ?5;!E;?4", 6), "c": ("@;!@ @ 3;!1 1 ?1", 3)}
PROPS["P26"] = dict(harnesses=[FO("%s-%s" % (m, k), m, *FF[k]) for m in ("print", "rename") for k in FF] + [FO("check-" + k, "check", *v) for k, v in {"a": ("@ @;!@ 2", 3), "b": ("?1 ?3 -4;!?2 ?5;?4 2;!E", 5), "c": FF["c"]}.items()] + [FO("print-big", "print", "?12 -104;?99 3;!-1000000", 104), FO("print-none", "print", "!1 -1", 1),
  FO("equal-a", "equal", "@ ?2;?1", 3, SPEC2="?1 @;!?1"), FO("equal-b", "equal", "?1 2;!?3", 12, SPEC2="1 ?2;!?3;!12"), FO("equal-c", "equal", "1;?11;!1 2", 23, SPEC2="?1;11;!?1 2;!1 23"),
  FO("degree-a", "degree", "@;@;?1 ?2 3", 3), FO("degree-b", "degree", "?1;!?2;?1 ?2;!?3", 3), FO("degree-c", "degree", "?1;!?1;?1 2 ?3;?2 3", 3)])

# several families may name the same case: names are made unique, because every harness has its own work directory
for _p in PROPS.values():
    _seen = {}
    for _h in _p["harnesses"]:
        _n = _h["name"]; _seen[_n] = _seen.get(_n, 0) + 1
        if _seen[_n] > 1: _h["name"] = "%s~%d" % (_n, _seen[_n])
