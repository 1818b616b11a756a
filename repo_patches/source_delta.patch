From d04e942232de7a883049c14a623377cad0064138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 01/35] fix: do not propagate clauses removed by simplification

During pre- and inprocessing the propagator kept watching clauses that subsumption or
variable elimination had removed, so an eliminated variable could be assigned by unit
propagation. Model reconstruction then pushed it a second time and wrote past the trail.
---
 src/candy/core/Solver.h                       | 3 +++
 src/candy/systems/propagate/Propagate.h       | 2 +-
 src/candy/systems/propagate/StaticPropagate.h | 2 +-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..aa1188f 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -235,6 +235,7 @@ private:
             if (clause_db.hasEmptyClause()) break;
 
             if (!subsumption.subsume()) clause_db.emptyClause();
+            propagator.reset(); // removed clauses must not be propagated
 
             if (subsumption.nTouched() > 0) {
                 augmented_database.cleanup();
@@ -246,6 +247,7 @@ private:
             if (clause_db.hasEmptyClause()) break;
 
             if (!reduction.reduce()) clause_db.emptyClause();
+            propagator.reset(); // removed clauses must not be propagated
 
             if (reduction.nTouched() > 0) {
                 augmented_database.cleanup();
@@ -256,6 +258,7 @@ private:
             if (clause_db.hasEmptyClause()) break;
 
             if (!elimination.eliminate()) clause_db.emptyClause();
+            propagator.reset(); // removed clauses must not be propagated
 
             if (elimination.nTouched() > 0) {
                 augmented_database.cleanup();
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index ebdeb94..9e2ebd5 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -78,7 +78,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
diff --git a/src/candy/systems/propagate/StaticPropagate.h b/src/candy/systems/propagate/StaticPropagate.h
index a53808a..6d5e16f 100644
--- a/src/candy/systems/propagate/StaticPropagate.h
+++ b/src/candy/systems/propagate/StaticPropagate.h
@@ -65,7 +65,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
-- 
2.43.0


From 00acedea62c9c7d6f8d6745adb1f985739fc1549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 02/35] fix: a variable added after elimination is not
 eliminated

Solver::init asked is_eliminated for variables first introduced by the added clauses and
read past the end of eliminated_clauses.
---
 src/candy/simplification/VariableElimination.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..2bacc06 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -133,7 +133,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return (unsigned int)v < eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 6db09596b672b0b17b22d7c2115357c2a8f1ca67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 03/35] fix: undo variable elimination recursively

The restored clauses can contain variables that were eliminated later; those have to be
restored, too, otherwise clauses over an eliminated variable are back in the database.
---
 src/candy/simplification/VariableElimination.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index 2bacc06..ef40ec7 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -125,6 +125,16 @@ public:
             }
         }
         eliminiated_variables.resize(j);
+        // restored clauses may contain variables that were eliminated later
+        for (unsigned int i = 0; i < correction_set.size(); i++) {
+            for (unsigned int k = 0; k < correction_set[i].size(); k++) {
+                Var other = correction_set[i][k].var();
+                if (is_eliminated(other)) {
+                    std::vector<Cl> cor = undo_elimination(other);
+                    correction_set.insert(correction_set.end(), cor.begin(), cor.end());
+                }
+            }
+        }
         return correction_set;
     }
 
-- 
2.43.0


From a19c524a2ff0275944403188b480a107ab9f7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 04/35] fix: ipasir_val returns 0 for a variable without value

It returned -lit for both polarities, that is contradicting values.
---
 src/candy/ipasir/ipasircandy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..72d35ef 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -97,7 +97,9 @@ public:
     int val(int lit) {
         if (nomodel) return 0;
         CandySolverResult& result = solver->getCandySolverResult();
-        return result.satisfies(import(lit)) ? lit : -lit;
+        if (result.satisfies(import(lit))) return lit;
+        if (result.satisfies(import(-lit))) return -lit;
+        return 0; // no value is assigned, both are possible
     }
 
     int failed(int lit) {
-- 
2.43.0


From c4d228186384fd09ec214387873f0b88f6b4ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:32 +0000
Subject: [PATCH 05/35] fix: ipasir_assume of a variable that occurs in no
 clause

The solver data structures were not sized for such a variable (out-of-bounds accesses).
---
 src/candy/ipasir/ipasircandy.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 72d35ef..2ba7c2b 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -80,6 +80,7 @@ public:
     void assume(int lit) {
         drop_analysis();
         nomodel = true;
+        while (problem.nVars() < (size_t)abs(lit)) problem.newVar();
         assumptions.push_back(import(lit));
     }
 
-- 
2.43.0


From 50a695e6645275246d3b80e8d255d80a18db3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:15 +0000
Subject: [PATCH 06/35] fix: extra bumping reads the trail of the current
 decision level

begin(level) is the first literal above the given level, so begin(decisionLevel())
indexes past the end of the level separators (out-of-bounds read with -extra-bump).
---
 src/candy/systems/branching/VSIDS.h  | 2 +-
 src/candy/systems/branching/VSIDSC.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..e587279 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..ea70095 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -261,7 +261,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel() - 1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From 385ee6a80b16fa533d02d06f6fb14813fd34bc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:09 +0000
Subject: [PATCH 07/35] fix: simplification must not resurrect removed clauses

Clauses removed by an earlier simplification stay in the clause vector until the
database is reorganized. A later simplification resolved on them and brought back
eliminated variables, so that model extension wrote past the end of the trail.
---
 src/candy/simplification/SubsumptionClauseDatabase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/simplification/SubsumptionClauseDatabase.h b/src/candy/simplification/SubsumptionClauseDatabase.h
index 6d2d3f3..9ec3db8 100644
--- a/src/candy/simplification/SubsumptionClauseDatabase.h
+++ b/src/candy/simplification/SubsumptionClauseDatabase.h
@@ -56,6 +56,7 @@ public:
             occurrences.resize(clause_db.nVars());
         }
         for (Clause* clause : clause_db) {
+            if (clause->isDeleted()) continue; // removed, but not yet reorganized
             SubsumptionClause* subsumption_clause = new (subsumption_clauses.allocate()) SubsumptionClause(clause);
             addToOccurenceLists(subsumption_clause);
         }
-- 
2.43.0


From c885522a4cbd2433bf29fedd8eac1a1a4ad85336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 08/35] fix: reject input that is not a number

StreamBuffer::readInteger left the function without a return value.
---
 src/candy/utils/StreamBuffer.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..c2e26f3 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -70,10 +70,11 @@ namespace Candy {
             // Had ERRNO=29 ('Illegal seek') when reading from stdin
             throw ParserException(std::string("PARSE ERROR! In 'strtol()', errno ") + std::to_string(errno) + std::string(" while reading ") + std::string(1, buffer[pos]));
         }
-        else if (end > str) {
-            incPos(static_cast<intptr_t>(end - str));
-            return static_cast<int>(number);
+        else if (end == str) {
+            throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
         }
+        incPos(static_cast<intptr_t>(end - str));
+        return static_cast<int>(number);
     }
 
     void StreamBuffer::check_refill_buffer() {
-- 
2.43.0


From 008f8fed011fe659c4298839e94ecbf2a53993fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 09/35] fix: range check of numbers in the input

The doubled absolute value overflowed for very large numbers (accepted as some other
literal), and literals above 2^30 do not fit the literal representation.
---
 src/candy/utils/StreamBuffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index c2e26f3..d7ff842 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -62,7 +62,9 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        // a literal is represented by 2*variable+sign in a signed 32 bit integer
+        const long limit = std::numeric_limits<int32_t>::max() / 2;
+        if (errno == ERANGE || number > limit || number < -limit) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
-- 
2.43.0


From 6b4870f011b4ad039bcaf62a8d095389a89638f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 10/35] fix: buffer handling of StreamBuffer

The buffer was not terminated for strtol(), numbers behind the buffered part were read
twice, lines longer than the buffer ended the input silently, and read errors were ignored.
---
 src/candy/utils/StreamBuffer.cc | 15 ++++++++++++---
 src/candy/utils/StreamBuffer.h  |  2 +-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index d7ff842..2a0c154 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -54,6 +54,7 @@ namespace Candy {
     }
 
     int StreamBuffer::readInteger() {
+        skipWhitespace(); // strtol() must not step over the end of the buffered part
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -85,15 +86,23 @@ namespace Candy {
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            int count = gzread(in, buffer + offset, buffer_size - offset);
+            if (count < 0) {
+                throw ParserException(std::string("ERROR! Could not read input"));
+            }
+            size = offset + count;
+            buffer[size] = '\0'; // terminates strtol()
             offset = 0;
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffered part ends with whitespace (does not cut a number)
+            while (offset < size && !isspace(buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) { // no whitespace at all, this is not a number
+                offset = 0;
+            }
         }
     }
 
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..7c1eaeb 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,7 +42,7 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
+        buffer = new char[buffer_size + 1];
         check_refill_buffer();
     }
 
-- 
2.43.0


From 63918d9a62f3c7e9a0f17f7435050e2e2f4c90a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:38 +0000
Subject: [PATCH 11/35] fix: DRATChecker must accept proofs that rely on facts

---
 src/candy/core/DRATChecker.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..a4f89fe 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -46,8 +46,8 @@ DRATChecker::DRATChecker(CNFProblem& problem_)
         for (Lit lit : *clause) {
             occurences[lit].push_back(clause);
         }
-        if (clause->size() == 1) {
-            trail.fact(clause->first());
+        if (clause->size() == 1 && !trail.fact(clause->first())) {
+            clause_db.emptyClause();
         }
     }
 }
@@ -125,6 +125,9 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    // propagate on a level of its own, such that facts are propagated again for the next clause
+    trail.newDecisionLevel();
+
     // check if clause is asymmetric tautology
     bool conflict = check_asymm(begin, end, lit_Undef);
         
-- 
2.43.0


From 3446b05b062fde69bbcfa084e21e43e7a6573274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:38 +0000
Subject: [PATCH 12/35] fix: DRATChecker: proof literals of unknown variables
 and deleted clauses

---
 src/candy/core/DRATChecker.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index a4f89fe..829868e 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -125,6 +125,11 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    // a literal of an unknown variable
+    if (std::any_of(begin, end, [this](Lit lit) { return lit.var() >= (Var)clause_db.nVars(); })) {
+        return false;
+    }
+
     // propagate on a level of its own, such that facts are propagated again for the next clause
     trail.newDecisionLevel();
 
@@ -162,9 +167,9 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
 template <typename Iterator>
 bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
-    if (size > 1) {
+    if (size > 1 && begin->var() < (Var)clause_db.nVars()) {
         for (Clause* clause : occurences[*begin]) {
-            if (size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
+            if (!clause->isDeleted() && size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
                 if (clause->size() > 2) {
                     propagator.detachClause(clause);
-- 
2.43.0


From 95dea31b4836633436b265facea70a56db9d7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:13 +0000
Subject: [PATCH 13/35] fix: parseOptions left argc undefined

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From 9e257c6edf8c459878ce4213d2d96170bd309d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:13 +0000
Subject: [PATCH 14/35] fix: option values out of range or not numeric are
 reported; string options are terminated

---
 src/candy/frontend/CLIOptions.cc |  2 +-
 src/candy/utils/Options.h        | 21 ++++++++++++---------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..63508c5 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -106,12 +106,14 @@ struct IntRange {
     int begin;
     int end;
     IntRange(int b, int e) : begin(b), end(e) {}
+    bool contains(int64_t x) const { return x >= begin && x <= end; }
 };
 
 struct Int64Range {
     int64_t begin;
     int64_t end;
     Int64Range(int64_t b, int64_t e) : begin(b), end(e) {}
+    bool contains(int64_t x) const { return x >= begin && x <= end; }
 };
 
 struct DoubleRange {
@@ -120,6 +122,7 @@ struct DoubleRange {
     bool  begin_inclusive;
     bool  end_inclusive;
     DoubleRange(double b, bool binc, double e, bool einc) : begin(b), end(e), begin_inclusive(binc), end_inclusive(einc) {}
+    bool contains(double x) const { return (begin_inclusive ? x >= begin : x > begin) && (end_inclusive ? x <= end : x < end); }
 };
 
 
@@ -150,8 +153,8 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (!range.contains(tmp)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -207,10 +210,10 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (!range.contains(tmp)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -279,8 +282,8 @@ class Int64Option : public Option {
             char* end;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+            if (end != span + len && *end == '\0') {
+                if (!range.contains(tmp)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -348,8 +351,8 @@ class StringOption : public Option {
     }
 
     void set(const char* val) {
-        // memset(value, 0, 256);
-        strncpy(value, val, 256);
+        strncpy(value, val, 255);
+        value[255] = '\0';
     }
 
     char* get() {
-- 
2.43.0


From 81573d5ec0711e1ae85b953f5e034f2e8068679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:06 +0000
Subject: [PATCH 15/35] fix: CNFProblem::normalizeVariableNames mapped all
 variables to one

---
 src/candy/core/CNFProblem.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/candy/core/CNFProblem.cc b/src/candy/core/CNFProblem.cc
index 34f5b01..a41d808 100644
--- a/src/candy/core/CNFProblem.cc
+++ b/src/candy/core/CNFProblem.cc
@@ -154,12 +154,12 @@ bool CNFProblem::checkResult(CandySolverResult& result) {
  * */
 void CNFProblem::normalizeVariableNames() {
     std::unordered_map<Var, Var> name;
-    //name.resize(variables, -1);
     unsigned int max = 0;
     for (Cl* clause : problem) {
         for (Lit& lit : *clause) {
-            if (name[lit.var()] == -1) name[lit.var()] = max++;
-            lit = Lit(name[lit.var()], lit.sign());
+            auto it = name.find(lit.var());
+            if (it == name.end()) it = name.emplace(lit.var(), max++).first;
+            lit = Lit(it->second, lit.sign());
         }
     }
     variables = max;
-- 
2.43.0


From 637b738f536c00e70d01f8089c1c8dcbbf69182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:05 +0000
Subject: [PATCH 16/35] fix: gate pattern of 2^n clauses must not accept
 redundant clauses

---
 src/candy/gates/GateAnalyzer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index dc5b994..cc5dc81 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -203,7 +203,12 @@ bool GateAnalyzer::patternCheck(Lit o, const For& fwd, const For& bwd) {
     if (fwd.size() == bwd.size() && 2*fwd.size() == pow(2, fwd_inp.size()/2)) {
         std::set<Var> vars;
         for (Lit l : fwd_inp) vars.insert(l.var());
-        return 2*vars.size() == fwd_inp.size();
+        // clauses of other sizes or duplicate clauses would leave some input assignments undefined
+        std::set<Cl> clauses;
+        for (Cl* c : fwd) clauses.insert(*c);
+        for (Cl* c : bwd) clauses.insert(*c);
+        return 2*vars.size() == fwd_inp.size() && clauses.size() == fwd.size() + bwd.size()
+            && fixedClauseSize(fwd, vars.size() + 1) && fixedClauseSize(bwd, vars.size() + 1);
     }
     return false;
 }
-- 
2.43.0


From 52b92d47329bfb53f7f7ec5316aa1dec483a6f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:30 +0000
Subject: [PATCH 17/35] fix: RSAR factory returned null or threw when no
 refinement heuristic or no conjectures are available

---
 src/candy/frontend/SolverFactory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..496113c 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -20,6 +20,8 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #ifndef SRC_CANDY_FRONTEND_SOLVERFACTORY_H_
 #define SRC_CANDY_FRONTEND_SOLVERFACTORY_H_
 
+#include <cstring>
+
 #include "candy/core/CNFProblem.h"
 #include "candy/core/CandySolverInterface.h"
 
@@ -60,18 +62,21 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	if (initializationComleted) {
 		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
+		if (strlen(RSAROptions::opt_rsar_inputDepCountHeurConf) > 0) {
 			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
 			if (limits.size() == 0) {
 				throw std::invalid_argument("invalid limits");
 			}
 			refinementHeuristics = createInputDepCountRefinementHeuristic(analyzer, limits);
 		}
+		else {
+			return new ARSolver(std::move(conjectures));
+		}
 
 		return new ARSolver(std::move(conjectures), std::move(refinementHeuristics)); 
 	}
 	else {
-		return nullptr;
+		return createSolver();
 	}
 }
 
-- 
2.43.0


From 965cd6787e1184a95684fd3862b6095ede5d9df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:10 +0000
Subject: [PATCH 18/35] fix: -minimize-minimal counted with variables of the
 problem, one input twice and under stale assumptions

---
 src/candy/minimizer/Minimizer.cc | 6 ++++--
 src/candy/minimizer/Minimizer.h  | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..4cbe866 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -140,14 +140,16 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         CNFProblem counter, lessthan;
         Cl variables;
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
+            counter.newVar(); // variables of the counter follow the variables of the problem
             variables.push_back(Lit(v, false));
         }
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
+        solver->getAssignment().setAssumptions(Cl {});
         satisfiable = l_True;
-        while (satisfiable == l_True) {
+        while (satisfiable == l_True && cardinality.size() > 0) {
             lessthan.clear();
-            genLessThanConstraint(lessthan, outputs, cardinality.size());
+            genLessThanConstraint(lessthan, outputs, cardinality.size() - 1);
             solver->init(lessthan);
 
             satisfiable = solver->solve();
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..026ef36 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -84,8 +84,8 @@ private:
         }
 
         Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
-        Lit carry = inputs.back();
+        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() - 1 };
+        Lit carry = inputs.back(); // the last input is the initial carry
         
         Cl a_outputs = genParCounter(out, a_inputs);
         Cl b_outputs = genParCounter(out, b_inputs);
@@ -113,7 +113,7 @@ private:
     }
 
     /**
-     * Generate less-than constraint for the outputs of the parallel counter
+     * Generate less-than-or-equal constraint for the outputs of the parallel counter
      * */
     void genLessThanConstraint(CNFProblem& out, Cl outputs, int k) {
         For lessthan;
-- 
2.43.0


From 53740edb127bbdad56a0ebd5b27498ef63aec677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 19/35] fix: simulate monotonously nested gates by their
 forward clauses

The condition was negated: gates without backward clauses (Plaisted-Greenbaum) were simulated as constants.
---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..f13b608 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -165,7 +165,8 @@ namespace Candy {
         Candy::Lit usedOutput;
         const For *usedGateClauses;
         
-        if (gate.hasNonMonotonicParent()
+        // monotonously nested gates are only guaranteed to have forward clauses
+        if (!gate.hasNonMonotonicParent()
             || gate.fwd.size() <= gate.bwd.size()) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
-- 
2.43.0


From 6d2f9a8df25f695ae5b7ed57f19f3905fd990025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 20/35] fix: the nonrecursive clause order applies the gate
 filter

readGates did not run the filter, so that nothing was simulated when one was set.
---
 src/candy/randomsimulation/ClauseOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index f13b608..fbfd27c 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -337,6 +337,8 @@ namespace Candy {
     };
     
     void NonrecursiveClauseOrder::readGates(const GateAnalyzer& analyzer) {
+        ClauseOrderImplBase::readGates(analyzer);
+        
         DFSGateCollector orderedGates = traverseDFS<DFSGateCollector>(analyzer.getGateProblem());
         m_inputVariables = std::move(orderedGates.inputs);
         m_maxVar = orderedGates.maxVar;
-- 
2.43.0


From 98707e288698880ab464ec2881a6e5ba44b921e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 21/35] fix: alternating randomization never alternated

---
 src/candy/randomsimulation/Randomization.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/randomsimulation/Randomization.cc b/src/candy/randomsimulation/Randomization.cc
index 2e6e84e..a4ffefe 100644
--- a/src/candy/randomsimulation/Randomization.cc
+++ b/src/candy/randomsimulation/Randomization.cc
@@ -258,6 +258,7 @@ namespace Candy {
         else {
             m_randomizationB->randomize(simVectors, indices);
         }
+        ++m_invocations;
     }
     
     
-- 
2.43.0


From 4cf8dd844a775b6568a8ca395d603ffeafc27b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 22/35] fix: initialize every simulation vector, not only the
 first one

---
 src/candy/randomsimulation/SimulationVector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/randomsimulation/SimulationVector.cc b/src/candy/randomsimulation/SimulationVector.cc
index 5675578..781ea17 100644
--- a/src/candy/randomsimulation/SimulationVector.cc
+++ b/src/candy/randomsimulation/SimulationVector.cc
@@ -85,6 +85,7 @@ namespace Candy {
         for (size_t i = 0; i < m_size; ++i) {
             new(toBeInitialized) SimulationVector;
             toBeInitialized->initialize(0ull);
+            ++toBeInitialized;
         }
         
         m_isInitialized = true;
-- 
2.43.0


From b600364f9d58b332d6147a747dbcbdf519672a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 23/35] fix: the gate filter omits gates depending on omitted
 gates

A gate was kept if its inputs were enabled, even if these had been omitted
because of their own inputs: it was computed from values nobody computed.
---
 src/candy/randomsimulation/ClauseOrder.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index fbfd27c..dd6ba79 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -86,6 +86,7 @@ namespace Candy {
     protected:
         void backtrack(const GateAnalyzer& analyzer, const Gate &gate);
         std::vector<const Cl*> &createClauseStorage(Candy::Var variable);
+        bool hasClauseStorage(Candy::Var variable) const;
         
         std::vector<Candy::Var> m_inputVariables;
         std::vector<Candy::Lit> m_outputLitsOrdered;
@@ -131,6 +132,10 @@ namespace Candy {
         return *m_clausesByOutput[variable];
     }
     
+    bool ClauseOrderImplBase::hasClauseStorage(Candy::Var variable) const {
+        return static_cast<size_t>(variable) < m_clausesByOutput.size() && m_clausesByOutput[variable] != nullptr;
+    }
+    
     const std::vector<const Cl*>& ClauseOrderImplBase::getClauses(Candy::Var variable) const {
         assert(variable >= 0);
         assert(static_cast<size_t>(variable) < m_clausesByOutput.size());
@@ -146,7 +151,8 @@ namespace Candy {
         if (m_filteringEnabled) {
             // backtrack the gate only if
             //  - its output is an enabled variable
-            //  - for none of its input variables i, the following holds: i is an output variable of a gate and i is disabled.
+            //  - for none of its input variables i, the following holds: i is an output variable of a gate and i is
+            //    disabled or has been omitted itself (inputs are backtracked before the gates using them).
             
             Candy::Var outputVar = gate.out.var();
             
@@ -156,7 +162,7 @@ namespace Candy {
             
             for (auto inputLit : gate.inp) {
                 if (analyzer.getResult().getGate(inputLit).isDefined()
-                    && m_enabledOutputs.find(inputLit.var()) == m_enabledOutputs.end()) {
+                    && !hasClauseStorage(inputLit.var())) {
                     return; // no backtracking
                 }
             }
-- 
2.43.0


From ce8638fe62175a8a8c3d2363dd608911c985c2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 24/35] fix: the recursive clause order lists every gate output
 once

Root gates that are also inputs of other roots, or are repeated in the roots, were listed again.
---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index dd6ba79..3119313 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -243,7 +243,8 @@ namespace Candy {
         for (const Cl* rootClause : analyzer.getResult().getRoots()) {
             for (Lit rootLit : *rootClause) {
                 m_maxVar = std::max(m_maxVar, rootLit.var());
-                if (analyzer.getResult().getGate(rootLit).isDefined()) {
+                if (analyzer.getResult().getGate(rootLit).isDefined()
+                    && seenOutputs.find(rootLit.var()) == seenOutputs.end()) {
                     readGatesRecursive(analyzer, rootLit, seenInputs, seenOutputs);
                 }
             }
-- 
2.43.0


From 8c5a01e9cc1ec053fa7ac0c63e6061c06641894f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 25/35] fix: clauses of more than 65535 literals

The length was stored in 16 bits: longer clauses lost literals (wrong answers and crashes).
Clauses exceeding the size of an allocator page get a page of their own.
---
 src/candy/core/Solver.h                        | 2 +-
 src/candy/core/clauses/Clause.h                | 6 +++---
 src/candy/core/clauses/ClauseAllocatorMemory.h | 2 +-
 src/candy/simplification/SubsumptionClause.h   | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index aa1188f..ffe92ec 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -273,7 +273,7 @@ private:
     }
 
     void ipasir_callback(Clause* clause) {
-        if (learntCallback != nullptr && clause->size() <= learntCallbackMaxLength) {
+        if (learntCallback != nullptr && (int)clause->size() <= learntCallbackMaxLength) {
             std::vector<int> to_send;
             to_send.reserve(clause->size() + 1);
             for (Lit lit : *clause) {
diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..0fc5865 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
+    uint32_t length;
     uint16_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
diff --git a/src/candy/core/clauses/ClauseAllocatorMemory.h b/src/candy/core/clauses/ClauseAllocatorMemory.h
index 0db4d43..5128865 100644
--- a/src/candy/core/clauses/ClauseAllocatorMemory.h
+++ b/src/candy/core/clauses/ClauseAllocatorMemory.h
@@ -219,7 +219,7 @@ public:
 
     inline void* allocate(size_t length) {
         if (pages.size() == 0 || !pages.back().hasMemory(length)) { 
-            pages.emplace_back(default_page_size); 
+            pages.emplace_back(std::max((size_t)default_page_size, sizeof(Clause) + sizeof(Lit) * length)); 
         }
         return pages.back().allocate(length);
     }
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..83d49a2 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,7 +68,7 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
-- 
2.43.0


From a262b16a321a42e55fd2c5c67460c3f1e331f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 26/35] fix: iterating over an empty clause in the clause
 allocator

The size of an empty clause was computed in 32 bits, so that the next one was looked for 16 GB further.
---
 src/candy/core/clauses/ClauseAllocatorMemory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/clauses/ClauseAllocatorMemory.h b/src/candy/core/clauses/ClauseAllocatorMemory.h
index 5128865..9b28676 100644
--- a/src/candy/core/clauses/ClauseAllocatorMemory.h
+++ b/src/candy/core/clauses/ClauseAllocatorMemory.h
@@ -57,7 +57,7 @@ public:
     private:
         unsigned char* pos;
 
-        inline unsigned int clauseBytes(unsigned int length) {
+        inline size_t clauseBytes(size_t length) {
             return (sizeof(Clause) + sizeof(Lit) * (length-1));
         }
     };
-- 
2.43.0


From 650013002ef61bd9e690e6ca08bff1f5e3f04929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 27/35] fix: RSIL modes vanishing and implicationbudgeted were
 exchanged

---
 src/candy/frontend/CandyBuilder.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/candy/frontend/CandyBuilder.h b/src/candy/frontend/CandyBuilder.h
index 5010cd1..65f25f8 100644
--- a/src/candy/frontend/CandyBuilder.h
+++ b/src/candy/frontend/CandyBuilder.h
@@ -53,24 +53,24 @@ public:
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
+    constexpr auto branchWithRSILBudgeted3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
     }
 
-    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic3>();
+    constexpr auto branchWithRSILVanishing3() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic3>();
     }
 
     constexpr auto branchWithRSILUnrestricted2() const -> CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2> {
         return CandyBuilder<TPropagate, TLearning, RSILBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
+    constexpr auto branchWithRSILBudgeted2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
     }
 
-    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2> {
-        return CandyBuilder<TPropagate, TLearning, RSILBudgetBranchingHeuristic2>();
+    constexpr auto branchWithRSILVanishing2() const -> CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2> {
+        return CandyBuilder<TPropagate, TLearning, RSILVanishingBranchingHeuristic2>();
     }
 
     constexpr auto propagateStaticClauses() const -> CandyBuilder<StaticPropagate, TLearning, TBranching> { 
-- 
2.43.0


From 7de4259dddace36d0b51809cfc7dfe15ad42df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:29 +0000
Subject: [PATCH 28/35] fix: a line of the solver's output was no comment

---
 src/candy/frontend/CandyBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/frontend/CandyBuilder.cc b/src/candy/frontend/CandyBuilder.cc
index 4495156..956989a 100644
--- a/src/candy/frontend/CandyBuilder.cc
+++ b/src/candy/frontend/CandyBuilder.cc
@@ -63,7 +63,7 @@ CandySolverInterface* createSolver(bool staticPropagate, bool lrb, bool vsidsc,
             std::cout << "c Building Solver of Type Solver<StaticPropagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().propagateStaticClauses().build();
         } else {
-            std::cout << "Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
+            std::cout << "c Building Solver of Type Solver<Propagate, ConflictAnalysis, LRB>" << std::endl;
             return builder.branchWithLRB().build();
         }
     } 
-- 
2.43.0


From 74556f4f0f9825764c25c670ebf8c4a8332cd947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 29/35] fix: numbers of variables in the AIG output

---
 src/candy/gates/AIGProblem.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 56831d8..6afe7ca 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -87,7 +87,9 @@ public:
         if (lit == lit_Undef) {
             fprintf(out, "1");
         } else {
-            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit));
+            // variable 0 is the constant in AIG format
+            Lit l = negate[lit.var()] ? ~lit : lit;
+            fprintf(out, "%i", 2 * (l.var() + 1) + (l.sign() ? 1 : 0));
         }
     }
 
@@ -133,7 +135,7 @@ private:
                 conj.push_back(clause->front());
             } 
             else {
-                Lit out = Lit(++var_count);
+                Lit out = Lit(var_count++);
                 conj.push_back(out);
 
                 Cl inverted;
@@ -184,7 +186,7 @@ private:
             Cl rights { conj.begin() + pivot, conj.end() };
             Lit left = convertNaryRecursive(lefts);
             Lit right = convertNaryRecursive(rights);
-            Lit output = Lit(++var_count);
+            Lit output = Lit(var_count++);
             ands.emplace_back(output, left, right);
             return output;
         }
-- 
2.43.0


From c212f53599a55bd2ec5fa1e18302c1e2bb432102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 30/35] fix: AIG gates used in negated polarity

---
 src/candy/gates/AIGProblem.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 6afe7ca..af926eb 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -67,7 +67,7 @@ public:
         if (problem.hasArtificialRoot()) {
             var_count++;
         }
-        visited.resize(2 * var_count, false);
+        visited.resize(var_count, false);
         literals.push_back(problem.getRoot());
     }
 
@@ -151,14 +151,15 @@ private:
 
     void createAnds() {
         while (literals.size() > 0) {
-            Lit lit = literals.back();
+            Var var = literals.back().var();
             literals.pop_back();
 
-            if (!visited[lit]) {
-                visited[lit] = true;
+            if (!visited[var]) {
+                visited[var] = true;
 
-                if (problem[lit.var()].isDefined()) { 
-                    For& clauses = (For&)problem[lit.var()].fwd;
+                if (problem[var].isDefined()) { 
+                    Lit lit = problem[var].out; // the gate may be used in the other polarity
+                    For& clauses = (For&)problem[var].fwd;
 
                     // strip output-literal from clauses
                     For list;
-- 
2.43.0


From fb1b008a8c82c317f8d846e073649ab678c06969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 31/35] fix: normalizeRoots changed the clauses of the problem

---
 src/candy/gates/GateProblem.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/gates/GateProblem.h b/src/candy/gates/GateProblem.h
index 04cc133..37eb4b6 100644
--- a/src/candy/gates/GateProblem.h
+++ b/src/candy/gates/GateProblem.h
@@ -279,8 +279,9 @@ public:
         remainder.clear();
         for (Cl* c : roots) {
             inp.insert(c->begin(), c->end());
-            c->push_back(Lit(root, true));
-            gates[root].fwd.push_back(new Cl(*c));
+            Cl* clause = new Cl(*c); // clauses of the problem stay as they are
+            clause->push_back(Lit(root, true));
+            gates[root].fwd.push_back(clause);
         }
         gates[root].inp.insert(gates[root].inp.end(), inp.begin(), inp.end());
         this->roots.clear();
-- 
2.43.0


From 8325f32392f17edb9887e04df5fc417214c664a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:53 +0000
Subject: [PATCH 32/35] fix: messages of the gate analysis in the output of
 cnf2aig

---
 src/candy/cnf2aig.cc      | 2 ++
 src/candy/utils/Options.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/cnf2aig.cc b/src/candy/cnf2aig.cc
index f66ac0a..32b18bb 100644
--- a/src/candy/cnf2aig.cc
+++ b/src/candy/cnf2aig.cc
@@ -22,6 +22,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <zlib.h>
 #include <cassert>
 #include <cstring>
+#include <iostream>
 #include <iterator>
 #include <map>
 #include <set>
@@ -43,6 +44,7 @@ int main(int argc, char** argv) {
 	}
 
 	FILE* out = stdout;
+	std::cout.rdbuf(std::cerr.rdbuf()); // only the AIG goes to stdout
     char* filename = argv[1];
 
 	CNFProblem problem;
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 63508c5..76b6f56 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -83,7 +83,7 @@ class Option {
             getOptionList().push_back(this);
         }
         else {
-            std::cout << "c Option '" << name_ << "' has been disabled. You are not able to change the default setting." << std::endl;
+            std::cerr << "c Option '" << name_ << "' has been disabled. You are not able to change the default setting." << std::endl;
         }
     }
 
-- 
2.43.0


From 07971efa1dbf17aa6577b20ed80a953fdedec0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:56 +0000
Subject: [PATCH 33/35] fix: more decision levels than variables when
 assumptions are repeated

---
 src/candy/core/Trail.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..80268b8 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -95,7 +95,7 @@ public:
             assigns.resize(nVars, l_Undef);
             vardata.resize(nVars);
             trail.resize(nVars);
-            stamp.grow(nVars);
+            stamp.grow(nVars + assumptions.size() + 1);
             decision.resize(nVars, true);
         }
     }
@@ -136,6 +136,7 @@ public:
             }
             this->assumptions.push_back(lit);
         }
+        stamp.grow(variables + assumptions.size() + 1); // satisfied assumptions open levels without a variable
     }
 
     bool hasAssumptionsNotSet() {
-- 
2.43.0


From cc6def2eaa41f4e29c74e057d3d744b36a835860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:31 +0000
Subject: [PATCH 34/35] fix: value of a variable beyond the model

---
 src/candy/core/CandySolverResult.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/candy/core/CandySolverResult.h b/src/candy/core/CandySolverResult.h
index 6dc896a..850cd9e 100644
--- a/src/candy/core/CandySolverResult.h
+++ b/src/candy/core/CandySolverResult.h
@@ -79,7 +79,10 @@ public:
 
     // return satisfied literal for given variable
     Lit value(Var x) const {
-        if (model[x] == l_False) {
+        if (x >= (Var)model.size()) {
+            return lit_Undef;
+        }
+        else if (model[x] == l_False) {
             return Lit(x, true);
         } 
         else if (model[x] == l_True) {
-- 
2.43.0


From 69ef313d4baf472307d9fae691f208378e3a03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:50 +0000
Subject: [PATCH 35/35] fix: the degree hash depended on the order of unit
 clauses

---
 src/candy/gbd/hash.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/candy/gbd/hash.cpp b/src/candy/gbd/hash.cpp
index 69d053b..f0d1d72 100644
--- a/src/candy/gbd/hash.cpp
+++ b/src/candy/gbd/hash.cpp
@@ -3,6 +3,9 @@
 #include "candy/core/SolverTypes.h"
 #include <candy/gbd/md5/md5.h>
 
+#include <algorithm>
+#include <set>
+
 
 Hash::Hash(const Candy::CNFProblem& problem_) : problem(problem_) {}
 
@@ -45,13 +48,17 @@ std::string Hash::degree_hash() {
         degrees[lit] = occurrences[lit].size();
     }
     // normalize degree-list by unit-propagation
-    for (Candy::Lit lit : facts) {
-        for (Candy::Cl* clause : occurrences[lit]) {
-            for (Candy::Lit lit : *clause) {
-                degrees[lit]--;
-            }
+    std::set<Candy::Cl*> satisfied; // every clause counts once
+    for (Candy::Lit fact : facts) {
+        satisfied.insert(occurrences[fact].begin(), occurrences[fact].end());
+    }
+    for (Candy::Cl* clause : satisfied) {
+        for (Candy::Lit lit : *clause) {
+            degrees[lit]--;
         }
-        degrees[~lit] = 0;
+    }
+    for (Candy::Lit fact : facts) {
+        degrees[~fact] = 0;
     }
 
     unsigned char sig[MD5_SIZE];
-- 
2.43.0

