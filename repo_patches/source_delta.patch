From ea60b77711cf1c56696d6a582a3771131665fbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:23 +0000
Subject: [PATCH 01/36] fix: parseOptions left parsed flags in argv (loop index
 shadowed the one used to reduce argc)

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index dc516be..c76831c 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -34,7 +34,7 @@ namespace Candy {
 
 void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
-    for (int i = j = 1; i < argc; i++){
+    for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
         if (strstr(str, "--help") != nullptr) {
             printUsageAndExit(argc, argv, true);
-- 
2.43.0


From c99d925f3569d8dc12c6a4c179bd2c2fd49b49b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 02/36] fix: removed clauses were re-attached during
 simplification, so eliminated variables were assigned twice (wrong models,
 heap overflow)

---
 src/candy/core/Solver.h                              | 4 ++++
 src/candy/simplification/SubsumptionClauseDatabase.h | 1 +
 src/candy/systems/propagate/Propagate.h              | 2 +-
 src/candy/systems/propagate/StaticPropagate.h        | 2 +-
 4 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 503e9af..a128d9d 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -259,6 +259,9 @@ private:
 
             if (elimination.nTouched() > 0) {
                 augmented_database.cleanup();
+                // do not propagate eliminated variables through clauses which are no longer there
+                propagator.reset();
+                trail.qhead = 0;
                 if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Eliminiated " << elimination.nTouched() << " variables" << std::endl;
             }
 
@@ -463,6 +466,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
             clause_db.reorganize();
             branch.process_reduce();
             propagator.reset();
+            trail.qhead = 0; // clauses have been attached without regard to the present assignment
         }
 
         // multi-threaded unit-clauses fast-track
diff --git a/src/candy/simplification/SubsumptionClauseDatabase.h b/src/candy/simplification/SubsumptionClauseDatabase.h
index 6d2d3f3..95d90f5 100644
--- a/src/candy/simplification/SubsumptionClauseDatabase.h
+++ b/src/candy/simplification/SubsumptionClauseDatabase.h
@@ -56,6 +56,7 @@ public:
             occurrences.resize(clause_db.nVars());
         }
         for (Clause* clause : clause_db) {
+            if (clause->isDeleted()) continue; // removed but not yet collected
             SubsumptionClause* subsumption_clause = new (subsumption_clauses.allocate()) SubsumptionClause(clause);
             addToOccurenceLists(subsumption_clause);
         }
diff --git a/src/candy/systems/propagate/Propagate.h b/src/candy/systems/propagate/Propagate.h
index ebdeb94..9e2ebd5 100644
--- a/src/candy/systems/propagate/Propagate.h
+++ b/src/candy/systems/propagate/Propagate.h
@@ -78,7 +78,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
diff --git a/src/candy/systems/propagate/StaticPropagate.h b/src/candy/systems/propagate/StaticPropagate.h
index a53808a..6d5e16f 100644
--- a/src/candy/systems/propagate/StaticPropagate.h
+++ b/src/candy/systems/propagate/StaticPropagate.h
@@ -65,7 +65,7 @@ public:
     void init() {
         watchers.resize(Lit(clause_db.nVars(), true));
         for (Clause* clause : clause_db) {
-            if (clause->size() > 2) {
+            if (clause->size() > 2 && !clause->isDeleted()) {
                 attachClause(clause);
             } 
         }
-- 
2.43.0


From fc395f115e38639ce3224953175ff128ee1a4744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:47 +0000
Subject: [PATCH 03/36] fix: extra-bump read the trail limit past its end
 instead of the current decision level

---
 src/candy/systems/branching/VSIDS.h  | 2 +-
 src/candy/systems/branching/VSIDSC.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/candy/systems/branching/VSIDS.h b/src/candy/systems/branching/VSIDS.h
index bb27656..cc87722 100644
--- a/src/candy/systems/branching/VSIDS.h
+++ b/src/candy/systems/branching/VSIDS.h
@@ -235,7 +235,7 @@ public:
 
         if (glucose_style_extra_bump)
         {
-            for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+            for (auto it = trail.begin(trail.decisionLevel()-1); it < trail.end(); it++)
             {
                 Var v = it->var();
                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
diff --git a/src/candy/systems/branching/VSIDSC.h b/src/candy/systems/branching/VSIDSC.h
index 8237ab4..b982d42 100644
--- a/src/candy/systems/branching/VSIDSC.h
+++ b/src/candy/systems/branching/VSIDSC.h
@@ -261,7 +261,7 @@ public:
 
                 if (glucose_style_extra_bump)
                 {
-                        for (auto it = trail.begin(trail.decisionLevel()); it < trail.end(); it++)
+                        for (auto it = trail.begin(trail.decisionLevel()-1); it < trail.end(); it++)
                         {
                                 Var v = it->var();
                                 if (!stamp[v] && trail.reason(v) != nullptr && trail.reason(v)->isLearnt() && trail.reason(v)->getLBD() < clause_db.result.lbd)
-- 
2.43.0


From e7cf3d13be8af59987c5fb42ed898421e6dd9478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:16 +0000
Subject: [PATCH 04/36] fix: -rsar-enable aborted without heuristic
 configuration and dereferenced null when RSAR was not applicable

---
 src/candy/Main.cc                  | 2 +-
 src/candy/frontend/SolverFactory.h | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 52c5c86..41165f8 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -228,7 +228,7 @@ int main(int argc, char** argv) {
         if (RSAROptions::opt_rsar_enable) {
             solver = createRSARSolver(problem);
         }
-        else {
+        if (solver == nullptr) { // RSAR is disabled or not applicable to this problem
             solver = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb, SolverOptions::opt_use_vsidsc, RSILOptions::opt_rsil_enable, RSILOptions::opt_rsil_advice_size);
         }
         solvers.push_back(solver); 
diff --git a/src/candy/frontend/SolverFactory.h b/src/candy/frontend/SolverFactory.h
index 8d594b2..7b308a7 100644
--- a/src/candy/frontend/SolverFactory.h
+++ b/src/candy/frontend/SolverFactory.h
@@ -60,7 +60,10 @@ CandySolverInterface* createRSARSolver(CNFProblem& problem) {
 	if (initializationComleted) {
 		std::unique_ptr<RefinementHeuristic> refinementHeuristics;
 
-		if (RSAROptions::opt_rsar_inputDepCountHeurConf > 0) {
+		if (std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }.empty()) {
+			return new ARSolver(std::move(conjectures));
+		}
+		else {
 			std::vector<size_t> limits = tokenizeByWhitespace<size_t>(std::string { RSAROptions::opt_rsar_inputDepCountHeurConf }); 
 			if (limits.size() == 0) {
 				throw std::invalid_argument("invalid limits");
-- 
2.43.0


From cbfecabcb34344787322f6e0388a6484273e4024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:01 +0000
Subject: [PATCH 05/36] fix: RSAR reported UNSAT when only its approximation
 was unsatisfiable

---
 src/candy/rsar/ARSolver.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/candy/rsar/ARSolver.cc b/src/candy/rsar/ARSolver.cc
index ea9bf84..d9758fd 100644
--- a/src/candy/rsar/ARSolver.cc
+++ b/src/candy/rsar/ARSolver.cc
@@ -285,8 +285,9 @@ namespace Candy {
                 m_solver->getAssignment().setAssumptions(currentDelta->getAssumptionLiterals());
                 sat = m_solver->solve();
                                 
-                // the loop can safely be exited if no approximation clauses were used during solve
-                abort |= (sat != l_True) || (currentDelta->countEnabledClauses() == 0);
+                // the loop can safely be exited if no approximation clauses were used during solve,
+                // or if unsatisfiability does not depend on them
+                abort |= (currentDelta->countEnabledClauses() == 0) || m_solver->getCandySolverResult().getConflict().empty();
             }
             else {
                 // no further steps after this one => deactivate the approximation clauses completely.
-- 
2.43.0


From 4bc9ccfc76110c15ee499a15a1ec0bd97b301bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:00 +0000
Subject: [PATCH 06/36] fix: implicit learning advice overflowed when a
 variable is in an equivalence and a backbone conjecture

---
 src/candy/systems/branching/rsil/ImplicitLearningAdvice.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h b/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h
index 3726eb3..acf6a0e 100644
--- a/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h
+++ b/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h
@@ -351,7 +351,8 @@ namespace Candy {
     void ImplicitLearningAdvice<AdviceEntryType>::addBackboneConjecture(const Candy::BackboneConjecture &conjecture) {
         Var key = conjecture.getLit().var();
         assert (key < static_cast<Var>(m_advice.size()));
-        assert (m_advice[key].getSize() == 0);
+        // the variable may also occur in an equivalence conjecture: the backbone conjecture replaces it
+        m_advice[key].clear();
         m_advice[key].setBackbone(true);
         m_advice[key].addLiteral(conjecture.getLit());
     }
-- 
2.43.0


From 7cfb3c5115cd6623b2cf7af337a93f4dbe9c0b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:00 +0000
Subject: [PATCH 07/36] fix: random simulation accessed vectors out of bounds
 and left all but the first uninitialised

---
 src/candy/randomsimulation/ClauseOrder.cc      | 7 +++++++
 src/candy/randomsimulation/SimulationVector.cc | 1 +
 2 files changed, 8 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index c0743f9..01a89d6 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -179,6 +179,13 @@ namespace Candy {
         auto &clausesTarget = createClauseStorage(usedOutput.var());
         assert (clausesTarget.empty());
         clausesTarget.insert(clausesTarget.begin(), usedGateClauses->begin(), usedGateClauses->end());
+
+        // the backward clauses of monotonic gates can contain variables which are no inputs of the gate
+        for (const Cl* clause : clausesTarget) {
+            for (Lit lit : *clause) {
+                m_maxVar = std::max(m_maxVar, lit.var());
+            }
+        }
     }
     
     void ClauseOrderImplBase::readGates(const GateAnalyzer& analyzer) {
diff --git a/src/candy/randomsimulation/SimulationVector.cc b/src/candy/randomsimulation/SimulationVector.cc
index 5675578..781ea17 100644
--- a/src/candy/randomsimulation/SimulationVector.cc
+++ b/src/candy/randomsimulation/SimulationVector.cc
@@ -85,6 +85,7 @@ namespace Candy {
         for (size_t i = 0; i < m_size; ++i) {
             new(toBeInitialized) SimulationVector;
             toBeInitialized->initialize(0ull);
+            ++toBeInitialized;
         }
         
         m_isInitialized = true;
-- 
2.43.0


From 544389607e287ccef5edc9c85ed9881fdd6df8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:17 +0000
Subject: [PATCH 08/36] fix: ipasir_val gave contradictory values for a literal
 and its negation when the variable has no value

---
 src/candy/ipasir/ipasircandy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index 8d36673..d85e2e4 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -97,7 +97,9 @@ public:
     int val(int lit) {
         if (nomodel) return 0;
         CandySolverResult& result = solver->getCandySolverResult();
-        return result.satisfies(import(lit)) ? lit : -lit;
+        if (result.satisfies(import(lit))) return lit;
+        if (result.satisfies(~import(lit))) return -lit;
+        return 0; // the model does not constrain this variable
     }
 
     int failed(int lit) {
-- 
2.43.0


From e31dc7a28009fc45f4a4b9c0cabb1edd0b1a7f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 09/36] fix: assumptions over unused variables and more
 assumptions than variables accessed memory out of bounds

---
 src/candy/core/Trail.h          | 6 ++++--
 src/candy/ipasir/ipasircandy.cc | 3 +++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/candy/core/Trail.h b/src/candy/core/Trail.h
index 22c9e7d..3ae80da 100644
--- a/src/candy/core/Trail.h
+++ b/src/candy/core/Trail.h
@@ -131,11 +131,13 @@ public:
     void setAssumptions(const std::vector<Lit>& assumptions) {
         this->assumptions.clear();
         for (Lit lit : assumptions) {
-            if (lit.var() > (Var)variables) {
-                init(variables);
+            if (lit.var() >= (Var)variables) {
+                init(lit.var() + 1);
             }
             this->assumptions.push_back(lit);
         }
+        // assumptions which are already satisfied occupy decision levels as well
+        stamp.grow(variables + assumptions.size() + 1);
     }
 
     bool hasAssumptionsNotSet() {
diff --git a/src/candy/ipasir/ipasircandy.cc b/src/candy/ipasir/ipasircandy.cc
index d85e2e4..308a2c2 100644
--- a/src/candy/ipasir/ipasircandy.cc
+++ b/src/candy/ipasir/ipasircandy.cc
@@ -85,6 +85,9 @@ public:
 
     int solve() {
         drop_analysis();
+        for (Lit lit : assumptions) { // assumptions can use variables which occur in no clause
+            while (lit.var() >= (Var)problem.nVars()) problem.newVar();
+        }
         solver->init(problem);
         solver->getAssignment().setAssumptions(assumptions);
         lbool res = solver->solve();
-- 
2.43.0


From e17365d770d446e3df2bdf32117cd462859fe561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 10/36] fix: removing the termination callback (nullptr)
 crashed the next solve call

---
 src/candy/core/Solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index a128d9d..6121fe4 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -144,7 +144,7 @@ public:
     //TODO: use std::function<int(void*)> as type here
     void setTermCallback(void* state, int (*termCallback)(void* state)) override {
         this->termCallbackState = state;
-        this->termCallback = termCallback;
+        this->termCallback = termCallback != nullptr ? termCallback : [](void*) -> int { return 0; };
     }
 
     void setLearntCallback(void* state, int max_length, void (*learntCallback)(void* state, int* clause)) override { 
-- 
2.43.0


From eddfbdf59d21cb11538f505645f4b96778bf74f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:35 +0000
Subject: [PATCH 11/36] fix: re-introducing an eliminated variable left
 variables of its clauses eliminated (wrong answers of later solve calls)

---
 .../simplification/VariableElimination.h      | 26 ++++++++++++-------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/candy/simplification/VariableElimination.h b/src/candy/simplification/VariableElimination.h
index c543404..6dc4f2e 100644
--- a/src/candy/simplification/VariableElimination.h
+++ b/src/candy/simplification/VariableElimination.h
@@ -114,17 +114,23 @@ public:
     std::vector<Cl> undo_elimination(Var var) {
         assert(is_eliminated(var));
         std::vector<Cl> correction_set;
-        correction_set.insert(correction_set.end(), eliminated_clauses[var].begin(), eliminated_clauses[var].end());
-        eliminated_clauses[var].clear();
-        trail.setDecisionVar(var, true);
-        unsigned int j = 0;
-        for (unsigned int i = 0; i < eliminiated_variables.size(); i++) {
-            if (eliminiated_variables[i] != var) {
-                eliminiated_variables[j] = eliminiated_variables[i];
-                j++;
+        std::vector<Var> undo { var };
+        while (!undo.empty()) {
+            Var v = undo.back();
+            undo.pop_back();
+            if (!is_eliminated(v)) continue;
+            std::vector<Cl> clauses;
+            clauses.swap(eliminated_clauses[v]);
+            trail.setDecisionVar(v, true);
+            eliminiated_variables.erase(std::remove(eliminiated_variables.begin(), eliminiated_variables.end(), v), eliminiated_variables.end());
+            // the clauses can contain variables which have been eliminated later on
+            for (Cl& clause : clauses) {
+                for (Lit lit : clause) {
+                    if (is_eliminated(lit.var())) undo.push_back(lit.var());
+                }
             }
+            correction_set.insert(correction_set.end(), clauses.begin(), clauses.end());
         }
-        eliminiated_variables.resize(j);
         return correction_set;
     }
 
@@ -133,7 +139,7 @@ public:
     }
 
     inline bool is_eliminated(Var v) const {
-        return eliminated_clauses[v].size() > 0;
+        return v < (Var)eliminated_clauses.size() && eliminated_clauses[v].size() > 0;
     }
 
     void propagate_eliminated_variables() {
-- 
2.43.0


From 8a4d7f724128bf9871a9507c717d9e1a795fa662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:36 +0000
Subject: [PATCH 12/36] fix: portfolio threads shared the solver list and the
 answer without synchronisation (status, model and exit code of different
 solvers, heap corruption, abort at exit)

---
 src/candy/Main.cc | 42 ++++++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 41165f8..a9f8afc 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -47,6 +47,9 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <functional>
 #include <type_traits>
 #include <chrono>
+#include <atomic>
+#include <mutex>
+#include <thread>
 
 #include "candy/utils/Memory.h"
 #include "candy/utils/Options.h"
@@ -70,8 +73,9 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 using namespace Candy;
 
 static std::vector<CandySolverInterface*> solvers;
+static std::mutex solvers_mutex; // guards the list of solvers and the answer of the solver threads
 
-static bool interrupted = false;
+static std::atomic<bool> interrupted { false };
 static unsigned int start_time = 0;
 static int interrupted_callback(void* state) {
     if (SolverOptions::time_limit > 0) {
@@ -169,11 +173,16 @@ static void runSolverThread(lbool& result, CandySolverInterface*& solver, CNFPro
         global_allocator = solver_->setupGlobalAllocator();
     }
 
-    solvers.push_back(solver_);
     solver_->setTermCallback(solver_, interrupted_callback);
 
+    {
+        std::lock_guard<std::mutex> lock(solvers_mutex);
+        solvers.push_back(solver_);
+    }
+
     lbool result_ = solver_->solve();
 
+    std::lock_guard<std::mutex> lock(solvers_mutex);
     if (result == l_Undef) {
         result = result_;
         solver = solver_;
@@ -245,7 +254,12 @@ int main(int argc, char** argv) {
             std::cout << "Parallel mode with static database is disabled in this version due to a bug. If you want to test it, please checkout the branch 'release_sat_2019'." << std::endl;
             exit(0);
         }
-        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && result == l_Undef; count++) {
+        // written by the solver threads, which keep running when the answer is printed
+        static lbool thread_result = l_Undef;
+        static CandySolverInterface* thread_solver = nullptr;
+        auto hasResult = [] { std::lock_guard<std::mutex> lock(solvers_mutex); return thread_result != l_Undef; };
+        auto numSolvers = [] { std::lock_guard<std::mutex> lock(solvers_mutex); return solvers.size(); };
+        for (unsigned int count = 0; count < (unsigned int)ParallelOptions::opt_threads && !hasResult(); count++) {
             std::cout << "c Initializing Solver " << count << std::endl;
             ClauseDatabaseOptions::opt_recalculate_lbd = false;
             SolverOptions::opt_sort_variables = ((count % 2) == 0);
@@ -297,19 +311,27 @@ int main(int argc, char** argv) {
                     break;
             }
             
-            threads.push_back(std::thread(runSolverThread, std::ref(result), std::ref(solver), std::ref(problem), std::ref(global_allocator)));
+            threads.push_back(std::thread(runSolverThread, std::ref(thread_result), std::ref(thread_solver), std::ref(problem), std::ref(global_allocator)));
 
             do { 
                 // wait till solver is initialized (and wait a bit longer)
                 std::this_thread::sleep_for(std::chrono::milliseconds(ParallelOptions::opt_thread_initialization_delay)); 
-            } while (solvers.size() <= count);
+            } while (numSolvers() <= count);
         }
 
         installSignalHandlers(true);
         // problem.clear();
-        while (result == l_Undef && !interrupted) {
+        while (!hasResult() && !interrupted) {
             std::this_thread::sleep_for(std::chrono::milliseconds(500));
         }
+        {
+            std::lock_guard<std::mutex> lock(solvers_mutex);
+            result = thread_result;
+            solver = thread_solver;
+        }
+        for (std::thread& thread : threads) {
+            thread.detach(); // do not wait for the other solvers
+        }
         installSignalHandlers(false);
     }
 
@@ -358,12 +380,12 @@ int main(int argc, char** argv) {
             if (satisfied) {
                 std::cout << "c Result verified by model checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                exit(0);
             }
             else {
                 std::cout << "c Result could not be verified by model checker" << std::endl;
                 assert(satisfied);
-                return 1;
+                exit(1);
             }
         }
         else if (TestingOptions::test_proof && result == l_False) {
@@ -375,12 +397,12 @@ int main(int argc, char** argv) {
             if (proved) {
                 std::cout << "c Result verified by proof checker" << std::endl;
                 std::cout << "c ********************************" << std::endl;
-                return 0;
+                exit(0);
             }
             else {
                 std::cout << "c Result could not be verified by proof checker" << std::endl;
                 assert(proved);
-                return 1;
+                exit(1);
             }
         }
     }
-- 
2.43.0


From b34220f2370fcfb9eca9f9c4e1038a2d318bff1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:42 +0000
Subject: [PATCH 13/36] fix: output of running solver threads was mixed into
 the status and model lines of the portfolio mode

---
 src/candy/Main.cc       | 11 +++++++----
 src/candy/core/Solver.h | 31 +++++++++++++++++++++----------
 2 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index a9f8afc..8b64916 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -44,6 +44,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <string>
 #include <stdexcept>
 #include <regex>
+#include <sstream>
 #include <functional>
 #include <type_traits>
 #include <chrono>
@@ -93,7 +94,7 @@ static int interrupted_callback(void* state) {
 }
 
 static void set_interrupted(int signum) {
-    std::cout << "c Informing solver about desire to interrupt." << std::endl;
+    std::cout << "c Informing solver about desire to interrupt.\n" << std::flush;
     interrupted = true;
 }
 
@@ -355,11 +356,13 @@ int main(int argc, char** argv) {
                 std::cout << "c Minimized-Model: " << model.getMinimizedModelLiterals() << std::endl;
             } 
             else {
-                std::cout << "v";
+                std::ostringstream line; // written at once, other solver threads may still be running
+                line << "v";
                 for (Var v = 0; v < (Var)problem.nVars(); v++) {
-                    std::cout << " " << model.value(v);
+                    line << " " << model.value(v);
                 }
-                std::cout << " 0" << std::endl;
+                line << " 0\n";
+                std::cout << line.str() << std::flush;
             }
         }
 
diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index 6121fe4..a3c6037 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -48,6 +48,7 @@ OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWA
 #include <type_traits>
 #include <memory>
 #include <limits>
+#include <sstream>
 
 #include "candy/frontend/CLIOptions.h"
 
@@ -154,6 +155,16 @@ public:
     }
 
 protected:
+    // several solver threads share the output, therefore lines are written at once
+    template<typename... Parts>
+    static void printLine(const Parts&... parts) {
+        std::ostringstream line;
+        int expand[] = { (line << parts, 0)... };
+        (void)expand;
+        line << "\n";
+        std::cout << line.str() << std::flush;
+    }
+
     ClauseDatabase clause_db;
     Trail trail;
 
@@ -238,8 +249,8 @@ private:
 
             if (subsumption.nTouched() > 0) {
                 augmented_database.cleanup();
-                if (verbosity > 1) std::cout << "c Removed " << subsumption.nDuplicates << " Duplicate Clauses" << std::endl;
-                if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Subsumption subsumed " << subsumption.nSubsumed << " and strengthened " << subsumption.nStrengthened << " clauses" << std::endl;
+                if (verbosity > 1) printLine("c Removed ", subsumption.nDuplicates, " Duplicate Clauses");
+                if (verbosity > 1) printLine("c ", std::this_thread::get_id(), ": Subsumption subsumed ", subsumption.nSubsumed, " and strengthened ", subsumption.nStrengthened, " clauses");
             }
 
             propagateAndMaterializeUnitClauses();
@@ -249,7 +260,7 @@ private:
 
             if (reduction.nTouched() > 0) {
                 augmented_database.cleanup();
-                if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Reduction strengthened " << reduction.nTouched() << " clauses" << std::endl;
+                if (verbosity > 1) printLine("c ", std::this_thread::get_id(), ": Reduction strengthened ", reduction.nTouched(), " clauses");
             }
 
             propagateAndMaterializeUnitClauses();
@@ -262,7 +273,7 @@ private:
                 // do not propagate eliminated variables through clauses which are no longer there
                 propagator.reset();
                 trail.qhead = 0;
-                if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Eliminiated " << elimination.nTouched() << " variables" << std::endl;
+                if (verbosity > 1) printLine("c ", std::this_thread::get_id(), ": Eliminiated ", elimination.nTouched(), " variables");
             }
 
             num = subsumption.nTouched() + elimination.nTouched() + reduction.nTouched();
@@ -365,7 +376,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::search() {
             sonification.send("/conflict", trail.size(), true);
 
             if (trail.decisionLevel() == 0) {
-                if (verbosity > 1) std::cout << "c Conflict found by propagation at level 0" << std::endl;
+                if (verbosity > 1) printLine("c Conflict found by propagation at level 0");
                 return l_False;
             }
             
@@ -397,7 +408,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::search() {
                     trail.newDecisionLevel(); // Dummy decision level
                 } 
                 else if (trail.value(p) == l_False) {
-                    std::cout << "c Conflict found during propagation of assumption " << p << std::endl;
+                    printLine("c Conflict found during propagation of assumption ", p);
                     result.setConflict(conflict_analysis.analyzeFinal(~p));
                     return l_False;
                 } 
@@ -443,7 +454,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
     }
     
     if (this->preprocessing_enabled) {
-        std::cout << "c Preprocessing ... " << std::endl;
+        printLine("c Preprocessing ... ");
         processClauseDatabase();
         propagator.reset();
     }
@@ -456,7 +467,7 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
 
         if (reduce.trigger_reduce()) {
             if (inprocessingFrequency > 0 && lastRestartWithInprocessing + inprocessingFrequency <= reduce.nReduceCalls()) { 
-                std::cout << "c Inprocessing ... " << std::endl;
+                printLine("c Inprocessing ... ");
                 lastRestartWithInprocessing = reduce.nReduceCalls();
                 processClauseDatabase();
             }
@@ -481,10 +492,10 @@ lbool Solver<TPropagate, TLearning, TBranching>::solve() {
     }
 
     if (status == l_Undef) {
-        if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": Interrupted" << std::endl;
+        if (verbosity > 1) printLine("c ", std::this_thread::get_id(), ": Interrupted");
     }
     else {
-        if (verbosity > 1) std::cout << "c " << std::this_thread::get_id() << ": " << (status == l_True ? "SAT" : "UNSAT") << std::endl;
+        if (verbosity > 1) printLine("c ", std::this_thread::get_id(), ": ", (status == l_True ? "SAT" : "UNSAT"));
     }
     
     result.setStatus(status);
-- 
2.43.0


From a6b9453563a6ff8af492924aa7de3f24dff2afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:09 +0000
Subject: [PATCH 14/36] fix: auxiliary solvers of gate analysis and minimizer
 overwrote the proof file

---
 src/candy/gates/GateAnalyzer.cc  | 4 ++++
 src/candy/minimizer/Minimizer.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index dc5b994..231d62a 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -47,7 +47,11 @@ GateAnalyzer::GateAnalyzer(const CNFProblem& problem_, GateRecognitionMethod met
     if (useSemantic || useHolistic) {
         SolverOptions::opt_sort_variables = false;
         SolverOptions::opt_preprocessing = false;
+        // auxiliary solver, must not overwrite the certificate of the problem at hand
+        std::string certified_file(SolverOptions::opt_certified_file);
+        SolverOptions::opt_certified_file = "";
         solver = createSolver(); 
+        SolverOptions::opt_certified_file = certified_file.c_str();
     }
 }
 
diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index a893837..06163cb 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -37,7 +37,11 @@ Minimizer::Minimizer(CNFProblem& _problem, CandySolverResult& _model) : problem(
     SolverOptions::opt_preprocessing = false;
     SolverOptions::opt_inprocessing = 0;
     SolverOptions::opt_sort_variables = false;
+    // auxiliary solver, must not overwrite the certificate of the problem at hand
+    std::string certified_file(SolverOptions::opt_certified_file);
+    SolverOptions::opt_certified_file = "";
     solver = createSolver();
+    SolverOptions::opt_certified_file = certified_file.c_str();
  }
 
 Minimizer::~Minimizer() { 
-- 
2.43.0


From 16bc832dbd624a838718668733c77f5140f3e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:35 +0000
Subject: [PATCH 15/36] fix: the proof checker rejected valid proofs
 (contradicting unit clauses, conflicts at level 0), removed clauses twice and
 indexed out of bounds

---
 src/candy/core/DRATChecker.cc | 21 ++++++++++++++++-----
 src/candy/core/DRATChecker.h  |  3 +++
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/candy/core/DRATChecker.cc b/src/candy/core/DRATChecker.cc
index dbbf25c..8ac7fe1 100644
--- a/src/candy/core/DRATChecker.cc
+++ b/src/candy/core/DRATChecker.cc
@@ -46,8 +46,8 @@ DRATChecker::DRATChecker(CNFProblem& problem_)
         for (Lit lit : *clause) {
             occurences[lit].push_back(clause);
         }
-        if (clause->size() == 1) {
-            trail.fact(clause->first());
+        if (clause->size() == 1 && !trail.fact(clause->first())) {
+            clause_db.emptyClause();
         }
     }
 }
@@ -106,6 +106,11 @@ bool DRATChecker::check_proof(gzFile input_stream) {
     return clause_db.hasEmptyClause();
 }
 
+template <typename Iterator>
+bool DRATChecker::has_known_variables(Iterator begin, Iterator end) {
+    return std::all_of(begin, end, [this](Lit lit) { return lit.var() < (Var)clause_db.nVars(); });
+}
+
 template <typename Iterator>
 bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
     if (clause_db.hasEmptyClause()) return true;
@@ -120,11 +125,17 @@ bool DRATChecker::check_asymm(Iterator begin, Iterator end, Lit pivot) {
             trail.decide(lit);
         }
     }
-    return propagator.propagate() != nullptr;
+    bool conflict = propagator.propagate() != nullptr;
+    if (conflict && trail.decisionLevel() == 0) {
+        clause_db.emptyClause();
+    }
+    return conflict;
 }
 
 template <typename Iterator>
 bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
+    if (!has_known_variables(begin, end)) return false;
+
     // check if clause is asymmetric tautology
     bool conflict = check_asymm(begin, end, lit_Undef);
         
@@ -159,8 +170,8 @@ bool DRATChecker::check_clause_add(Iterator begin, Iterator end) {
 template <typename Iterator>
 bool DRATChecker::check_clause_remove(Iterator begin, Iterator end) {
     size_t size = std::distance(begin, end);
-    if (size > 1) {
-        for (Clause* clause : occurences[*begin]) {
+    if (size > 1 && has_known_variables(begin, end)) {
+        for (Clause* clause : occurences[*begin]) if (!clause->isDeleted()) {
             if (size == clause->size() && std::all_of(begin+1, end, [clause](Lit lit) { return clause->contains(lit); })) {
                 clause_db.removeClause(clause);
                 if (clause->size() > 2) {
diff --git a/src/candy/core/DRATChecker.h b/src/candy/core/DRATChecker.h
index 7ccde4e..11ae760 100644
--- a/src/candy/core/DRATChecker.h
+++ b/src/candy/core/DRATChecker.h
@@ -56,6 +56,9 @@ private:
     template <typename Iterator>
     bool check_clause_add(Iterator begin, Iterator end);
 
+    template <typename Iterator>
+    bool has_known_variables(Iterator begin, Iterator end);
+
     template <typename Iterator>
     bool check_asymm(Iterator begin, Iterator end, Lit lit);
 
-- 
2.43.0


From f1ee5ca278cddd36dc5c155ff8ca4a8a96c654b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:09 +0000
Subject: [PATCH 16/36] fix: a proof that cannot be read by the proof checker
 ended in an uncaught exception

---
 src/candy/Main.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/candy/Main.cc b/src/candy/Main.cc
index 8b64916..62eaaaf 100644
--- a/src/candy/Main.cc
+++ b/src/candy/Main.cc
@@ -395,7 +395,13 @@ int main(int argc, char** argv) {
             std::string file (SolverOptions::opt_certified_file);
             SolverOptions::opt_certified_file = "";
             DRATChecker checker(problem);
-            bool proved = checker.check_proof(file.c_str());
+            bool proved = false;
+            try {
+                proved = checker.check_proof(file.c_str());
+            }
+            catch (ParserException& e) {
+                std::cout << "c Caught Parser Exception: " << std::endl << e.what() << std::endl;
+            }
             // bool proved = (0 == check_proof((char*)inputFilename, SolverOptions::opt_certified_file.get())); 
             if (proved) {
                 std::cout << "c Result verified by proof checker" << std::endl;
-- 
2.43.0


From 9b4f76de77ffef22ad3149c00ecdcbfd9464de40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:09 +0000
Subject: [PATCH 17/36] fix: the reader misread numbers at the border of its
 buffer and ignored read errors, truncated compressed files and malformed
 tokens

---
 src/candy/utils/StreamBuffer.cc | 45 +++++++++++++++++++++++++--------
 src/candy/utils/StreamBuffer.h  | 16 ++++++++++--
 2 files changed, 48 insertions(+), 13 deletions(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 3cd244d..1ff58d4 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -31,7 +31,7 @@ namespace Candy {
 
     /** Skip until the end of the next newline (+subsequent whitespace) */
     void StreamBuffer::skipLine() {
-        while (!eof() && (!isspace(buffer[pos]) || isblank(buffer[pos]))) {
+        while (!eof() && (!isspace((unsigned char)buffer[pos]) || isblank((unsigned char)buffer[pos]))) {
             incPos(1);
         }
         skipWhitespace();
@@ -39,7 +39,7 @@ namespace Candy {
 
     /** Skip whitespace */
     void StreamBuffer::skipWhitespace() {
-        while (!eof() && isspace(buffer[pos])) {
+        while (!eof() && isspace((unsigned char)buffer[pos])) {
             incPos(1);
         }
     }
@@ -47,13 +47,19 @@ namespace Candy {
     /** Skip given sequence of character (+throw exceptions if input deviates) */
     void StreamBuffer::skipString(const char* str) {
         for (; *str != '\0'; ++str, incPos(1)) {
-            if (*str != buffer[pos] || eof()) {
+            if (eof()) {
+                throw ParserException(std::string("PARSE ERROR! Expected '") + std::string(str) + std::string("' but found end of file"));
+            }
+            if (*str != buffer[pos]) {
                 throw ParserException(std::string("PARSE ERROR! Expected '") + std::string(str) + std::string("' but found ") + std::string(1, buffer[pos]));
             }
         }
     }
 
     int StreamBuffer::readInteger() {
+        // leading whitespace might end at the end of the buffer, where 'strtol()' must not run over
+        skipWhitespace();
+
         if (eof()) throw ParserException(std::string("PARSE ERROR! Unexpected end of file"));
 
         char* str = buffer + pos;
@@ -62,7 +68,7 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || 2*abs(number) >= std::numeric_limits<uint32_t>::max()) {
+        if (errno == ERANGE || number > std::numeric_limits<int32_t>::max() || number < -std::numeric_limits<int32_t>::max()) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
@@ -70,28 +76,45 @@ namespace Candy {
             // Had ERRNO=29 ('Illegal seek') when reading from stdin
             throw ParserException(std::string("PARSE ERROR! In 'strtol()', errno ") + std::to_string(errno) + std::string(" while reading ") + std::string(1, buffer[pos]));
         }
-        else if (end > str) {
-            incPos(static_cast<intptr_t>(end - str));
-            return static_cast<int>(number);
+        else if (end == str) {
+            throw ParserException(std::string("PARSE ERROR! Expected a number but found ") + std::string(1, buffer[pos]));
         }
+        incPos(static_cast<intptr_t>(end - str));
+        return static_cast<int>(number);
     }
 
+    /**
+     * Refills the buffer once everything before 'size - offset' is consumed,
+     * the 'offset' characters after that belong to a token which continues in the next chunk 
+     */
     void StreamBuffer::check_refill_buffer() {
         if (pos >= size - offset) {
             pos = 0;
             if (offset > 0) {
                 std::copy(&buffer[size - offset], &buffer[size], buffer);
             }
-            size = offset + gzread(in, buffer + offset, buffer_size - offset);
+            size = offset;
             offset = 0;
+            buffer[size] = '\0';
+            int nread = gzread(in, buffer + size, buffer_size - size);
+            int error = Z_OK;
+            const char* message = gzerror(in, &error);
+            if (nread < 0 || (error != Z_OK && error != Z_STREAM_END)) {
+                throw ParserException(std::string("PARSE ERROR! Could not read input: ") + std::string(message));
+            }
+            size += nread;
+            buffer[size] = '\0';
             if (size < buffer_size) {
                 return;
             }
-            // make sure buffer ends with newline (assert: does not cut a number)
-            while (buffer[size - offset - 1] != '\n' && offset < size) {
+            // make sure buffer ends with whitespace (assert: does not cut a number)
+            while (offset < size && !isspace((unsigned char)buffer[size - offset - 1])) {
                 offset++;
             }
+            if (offset == size) { // one huge token (comments without any whitespace)
+                offset = 0;
+            }
         }
     }
 
-}
\ No newline at end of file
+}
diff --git a/src/candy/utils/StreamBuffer.h b/src/candy/utils/StreamBuffer.h
index 96d9947..a8ba749 100644
--- a/src/candy/utils/StreamBuffer.h
+++ b/src/candy/utils/StreamBuffer.h
@@ -42,10 +42,22 @@ class StreamBuffer {
 
 public:
     StreamBuffer(gzFile file) : in(file), pos(0), size(0), offset(0) {
-        buffer = new char[buffer_size];
-        check_refill_buffer();
+        buffer = new char[buffer_size + 1]; // null-terminated
+        try {
+            check_refill_buffer();
+        } catch (...) {
+            delete [] buffer;
+            throw;
+        }
+    }
+
+    ~StreamBuffer() {
+        delete [] buffer;
     }
 
+    StreamBuffer(const StreamBuffer&) = delete;
+    StreamBuffer& operator=(const StreamBuffer&) = delete;
+
     void skipLine();
     void skipWhitespace();
     void skipString(const char* str);
-- 
2.43.0


From 0e259a1826f618f3386dc196fbd1a11ef8df81f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:37 +0000
Subject: [PATCH 18/36] fix: numbers beyond the range of literals overflowed
 and were read as other variables

---
 src/candy/utils/StreamBuffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/utils/StreamBuffer.cc b/src/candy/utils/StreamBuffer.cc
index 1ff58d4..f5ceac4 100644
--- a/src/candy/utils/StreamBuffer.cc
+++ b/src/candy/utils/StreamBuffer.cc
@@ -68,7 +68,8 @@ namespace Candy {
         errno = 0;
         long number = strtol(str, &end, 10);
 
-        if (errno == ERANGE || number > std::numeric_limits<int32_t>::max() || number < -std::numeric_limits<int32_t>::max()) {
+        const long limit = 1l << 30; // literals are represented by 2 * variable + sign
+        if (errno == ERANGE || number > limit || number < -limit) {
             throw ParserException(std::string("PARSE ERROR! Variable out of range: ") + std::to_string(number));
         }
         else if (errno != 0) {
-- 
2.43.0


From 022867f74521f0a0d805c1492a60736ef9981e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:35 +0000
Subject: [PATCH 19/36] fix: implicit learning advice overflowed when a
 variable is in several equivalence conjectures

---
 src/candy/systems/branching/rsil/ImplicitLearningAdvice.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h b/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h
index acf6a0e..a0bb2ee 100644
--- a/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h
+++ b/src/candy/systems/branching/rsil/ImplicitLearningAdvice.h
@@ -337,6 +337,8 @@ namespace Candy {
             assert(m_advice[keyVar].getSize() <= AdviceEntryType::maxSize);
             assert(!m_advice[keyVar].isBackbone());
             
+            // hash collisions in random simulation can put the variable in several conjectures: the last one counts
+            m_advice[keyVar].clear();
             m_advice[keyVar].setBackbone(false);
             
             for (auto& entryLiteral : conjecture) {
-- 
2.43.0


From 61c1717b61f428b5f7297acf7267fd180273fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 20/36] fix: gate patterns accepted repeated or short clauses
 as full definitions

---
 src/candy/gates/GateAnalyzer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/candy/gates/GateAnalyzer.cc b/src/candy/gates/GateAnalyzer.cc
index 231d62a..616f8c6 100644
--- a/src/candy/gates/GateAnalyzer.cc
+++ b/src/candy/gates/GateAnalyzer.cc
@@ -207,7 +207,12 @@ bool GateAnalyzer::patternCheck(Lit o, const For& fwd, const For& bwd) {
     if (fwd.size() == bwd.size() && 2*fwd.size() == pow(2, fwd_inp.size()/2)) {
         std::set<Var> vars;
         for (Lit l : fwd_inp) vars.insert(l.var());
-        return 2*vars.size() == fwd_inp.size();
+        if (2*vars.size() != fwd_inp.size()) return false;
+        // holds only for clauses which constrain all inputs, and which are not repeated
+        std::set<Cl> distinct;
+        for (Cl* c : fwd) distinct.insert(*c);
+        for (Cl* c : bwd) distinct.insert(*c);
+        return distinct.size() == fwd.size() + bwd.size() && fixedClauseSize(fwd, vars.size()+1) && fixedClauseSize(bwd, vars.size()+1);
     }
     return false;
 }
-- 
2.43.0


From 372caabf68dc025e35d331a3f3330df7553b89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 21/36] fix: minimal models were not minimum, counter variables
 collided with problem variables

---
 src/candy/minimizer/Minimizer.cc | 3 ++-
 src/candy/minimizer/Minimizer.h  | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/candy/minimizer/Minimizer.cc b/src/candy/minimizer/Minimizer.cc
index 06163cb..51101d7 100644
--- a/src/candy/minimizer/Minimizer.cc
+++ b/src/candy/minimizer/Minimizer.cc
@@ -144,8 +144,9 @@ Cl Minimizer::iterativeMinimization(For hittingSetProblem, bool computeMinimalMo
         CNFProblem counter, lessthan;
         Cl variables;
         for (Var v = 0; v < (Var)this->problem.nVars(); v++) {
-            variables.push_back(Lit(v, false));
+            variables.push_back(Lit(counter.newVar(), false));
         }
+        solver->getAssignment().setAssumptions({}); // look for all smaller models, not only for subsets
         Cl outputs = genParCounter(counter, variables);
         solver->init(counter);
         satisfiable = l_True;
diff --git a/src/candy/minimizer/Minimizer.h b/src/candy/minimizer/Minimizer.h
index 1e6666b..67b5e57 100644
--- a/src/candy/minimizer/Minimizer.h
+++ b/src/candy/minimizer/Minimizer.h
@@ -84,7 +84,7 @@ private:
         }
 
         Cl a_inputs { inputs.begin(), inputs.begin() + inputs.size() / 2 };
-        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() };
+        Cl b_inputs { inputs.begin() + inputs.size() / 2, inputs.end() - 1 }; // the last one is the carry input
         Lit carry = inputs.back();
         
         Cl a_outputs = genParCounter(out, a_inputs);
@@ -116,7 +116,7 @@ private:
      * Generate less-than constraint for the outputs of the parallel counter
      * */
     void genLessThanConstraint(CNFProblem& out, Cl outputs, int k) {
-        For lessthan;
+        For lessthan { new Cl() }; // nothing is less than zero
         
         // comparator circuit
         for (unsigned int i = 0; i < outputs.size(); i++) {
-- 
2.43.0


From f373dc89f5835970deda44732c4fe9b9c3df0228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:55 +0000
Subject: [PATCH 22/36] fix: cnf2aig printed invalid circuits

---
 src/candy/gates/AIGProblem.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/candy/gates/AIGProblem.h b/src/candy/gates/AIGProblem.h
index 56831d8..de504d8 100644
--- a/src/candy/gates/AIGProblem.h
+++ b/src/candy/gates/AIGProblem.h
@@ -87,18 +87,18 @@ public:
         if (lit == lit_Undef) {
             fprintf(out, "1");
         } else {
-            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit));
+            fprintf(out, "%i", (int)(negate[lit.var()] ? ~lit : lit) + 2); // the first two are the constants
         }
     }
 
     void printAIG(FILE* out) {
         // As output may not be negative in AIG format we need to flip these globally:
-        std::vector<bool> negate(var_count, false);
+        std::vector<bool> negate(var_count + 1, false);
         for (BinaryAndGate a : ands) {
             if (a.output.sign()) negate[a.output.var()] = true;
         }
 
-        fprintf(out, "aag %i %zu %i %i %zu\n", var_count, inputs.size(), 0, 1, ands.size());
+        fprintf(out, "aag %i %zu %i %i %zu\n", var_count + 1, inputs.size(), 0, 1, ands.size());
         for (Var var : inputs) {
             printLit(out, Lit(var), negate);
             fprintf(out, "\n");
@@ -119,7 +119,7 @@ public:
 private:
     void registerLiteral(Lit lit) {
         if (problem[lit.var()].isDefined()) {
-            literals.push_back(lit);
+            literals.push_back(problem[lit.var()].out);
         } else {
             inputs.insert(lit.var());
         }
-- 
2.43.0


From 66bffd119d5ade65dd4602543ae3ca4163503eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:19 +0000
Subject: [PATCH 23/36] fix: clauses with more than 65535 literals were
 truncated (wrong answers)

---
 src/candy/core/clauses/Clause.h                | 6 +++---
 src/candy/core/clauses/ClauseAllocatorMemory.h | 3 ++-
 src/candy/simplification/SubsumptionClause.h   | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/candy/core/clauses/Clause.h b/src/candy/core/clauses/Clause.h
index 77ea505..0fc5865 100644
--- a/src/candy/core/clauses/Clause.h
+++ b/src/candy/core/clauses/Clause.h
@@ -37,12 +37,12 @@ class Clause {
     friend class Propagate;
 
 private:
-    uint16_t length;
+    uint32_t length;
     uint16_t weight;
 
     Lit literals[1];
 
-    inline void swap(uint16_t pos1, uint16_t pos2) {
+    inline void swap(uint32_t pos1, uint32_t pos2) {
         assert(pos1 < length && pos2 < length);
         Lit tmp = literals[pos1];
         literals[pos1] = literals[pos2];
@@ -90,7 +90,7 @@ public:
         return literals + length;
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         return length;
     }
 
diff --git a/src/candy/core/clauses/ClauseAllocatorMemory.h b/src/candy/core/clauses/ClauseAllocatorMemory.h
index 0db4d43..c828fa5 100644
--- a/src/candy/core/clauses/ClauseAllocatorMemory.h
+++ b/src/candy/core/clauses/ClauseAllocatorMemory.h
@@ -219,7 +219,8 @@ public:
 
     inline void* allocate(size_t length) {
         if (pages.size() == 0 || !pages.back().hasMemory(length)) { 
-            pages.emplace_back(default_page_size); 
+            size_t required = sizeof(Clause) + sizeof(Lit) * length;
+            pages.emplace_back(required < default_page_size ? default_page_size : required); 
         }
         return pages.back().allocate(length);
     }
diff --git a/src/candy/simplification/SubsumptionClause.h b/src/candy/simplification/SubsumptionClause.h
index ac2a2b0..83d49a2 100644
--- a/src/candy/simplification/SubsumptionClause.h
+++ b/src/candy/simplification/SubsumptionClause.h
@@ -68,7 +68,7 @@ public:
         return clause->end();
     }
 
-    inline uint16_t size() const {
+    inline uint32_t size() const {
         if (clause == nullptr) return 0;
         return clause->size();
     }
-- 
2.43.0


From 6ded4c40e6c399383f5e1d9f0d92f80de29ec6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:12 +0000
Subject: [PATCH 24/36] fix: termination requests were ignored until the next
 restart, which may never come

---
 src/candy/core/Solver.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/candy/core/Solver.h b/src/candy/core/Solver.h
index a3c6037..df0896a 100644
--- a/src/candy/core/Solver.h
+++ b/src/candy/core/Solver.h
@@ -394,6 +394,11 @@ lbool Solver<TPropagate, TLearning, TBranching>::search() {
             trail.propagate(clause->first(), clause);
             ipasir_callback(clause);
             sonification.send("/learnt", clause->size());
+
+            // restarts can be rare: look for termination requests during search as well
+            if (clause_db.result.nConflicts % 256 == 0 && termCallback(termCallbackState) != 0) {
+                return l_Undef;
+            }
         }
         else {
             if (restart.trigger_restart()) {
-- 
2.43.0


From 6c9c122d769630047ea6d3f948729b7b5f9f9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 25/36] fix: random simulation simulated one-sidedly encoded
 gates with their missing clauses

The direction was inverted: monotone gates are only guaranteed to have forward
clauses, so with the backward ones (possibly none) the output was simulated as
a constant and conjectured to be a backbone.
---
 src/candy/randomsimulation/ClauseOrder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 01a89d6..b2234c0 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -165,7 +165,7 @@ namespace Candy {
         Candy::Lit usedOutput;
         const For *usedGateClauses;
         
-        if (gate.hasNonMonotonicParent()
+        if (!gate.hasNonMonotonicParent()
             || gate.fwd.size() <= gate.bwd.size()) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
-- 
2.43.0


From fa3765900e2481c6079b5d8f131ed67620bbf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 26/36] fix: gate filters of the random simulation disabled all
 gates

The nonrecursive clause order did not collect the enabled outputs, and gates
depending on a disabled gate only transitively stayed enabled.
---
 src/candy/randomsimulation/ClauseOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index b2234c0..d3fe1ad 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -157,6 +157,7 @@ namespace Candy {
             for (auto inputLit : gate.inp) {
                 if (analyzer.getResult().getGate(inputLit).isDefined()
                     && m_enabledOutputs.find(inputLit.var()) == m_enabledOutputs.end()) {
+                    m_enabledOutputs.erase(outputVar); // gates depending on this one are disabled as well
                     return; // no backtracking
                 }
             }
@@ -343,6 +344,7 @@ namespace Candy {
     };
     
     void NonrecursiveClauseOrder::readGates(const GateAnalyzer& analyzer) {
+        ClauseOrderImplBase::readGates(analyzer);
         DFSGateCollector orderedGates = traverseDFS<DFSGateCollector>(analyzer.getGateProblem());
         m_inputVariables = std::move(orderedGates.inputs);
         m_maxVar = orderedGates.maxVar;
-- 
2.43.0


From e872d4f82785bbd1a5550c1858436d9d5b3842d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 27/36] fix: recursive clause order of the random simulation
 visited root gates twice

Outputs occurring twice took part in conjectures with themselves.
---
 src/candy/randomsimulation/ClauseOrder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index d3fe1ad..29d2559 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -244,7 +244,8 @@ namespace Candy {
         for (const Cl* rootClause : analyzer.getResult().getRoots()) {
             for (Lit rootLit : *rootClause) {
                 m_maxVar = std::max(m_maxVar, rootLit.var());
-                if (analyzer.getResult().getGate(rootLit).isDefined()) {
+                if (analyzer.getResult().getGate(rootLit).isDefined()
+                    && seenOutputs.find(rootLit.var()) == seenOutputs.end()) {
                     readGatesRecursive(analyzer, rootLit, seenInputs, seenOutputs);
                 }
             }
-- 
2.43.0


From 5ee2cc63b17130a30ffadc3d5a526b944db08aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 28/36] fix: alternating randomization of the random simulation
 never alternated

---
 src/candy/randomsimulation/Randomization.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/candy/randomsimulation/Randomization.cc b/src/candy/randomsimulation/Randomization.cc
index 2e6e84e..a4ffefe 100644
--- a/src/candy/randomsimulation/Randomization.cc
+++ b/src/candy/randomsimulation/Randomization.cc
@@ -258,6 +258,7 @@ namespace Candy {
         else {
             m_randomizationB->randomize(simVectors, indices);
         }
+        ++m_invocations;
     }
     
     
-- 
2.43.0


From 08a6f4f1837884e9bc54d161b5fa09528b60051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 29/36] fix: outputs equal to simulation inputs fell into one
 equivalence class

The partition hash used the same generator as the random vectors, so the hash of
a vector made by it was zero regardless of its values.
---
 src/candy/randomsimulation/Partition.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index bbd828a..e8bf1c4 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -232,6 +232,14 @@ namespace Candy {
         m_variables = variables;
     }
     
+    /**
+     * Combines a group ID with the next part of a simulation vector. The constant keeps vectors generated
+     * with fastNextRand from cancelling out: for w_1 = fastNextRand(w_0), fastNextRand(w_0) ^ w_1 is zero.
+     */
+    static inline uint64_t nextGroupId(uint64_t groupId, SimulationVector::varsimvec_field_t values) {
+        return fastNextRand((groupId + 0x9E3779B97F4A7C15ull) ^ values);
+    }
+    
     void DefaultPartition::initializePartitionEntry(size_t index, const SimulationVectors &varAssignments) {
         
         PartitionEntry partitionEntry;
@@ -259,8 +267,7 @@ namespace Candy {
             
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
-                partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ simVec.vars[svIdx]);
+                partitionEntry.groupId = nextGroupId(partitionEntry.groupId, simVec.vars[svIdx]);
             }
             
             if (partitionEntry.backbone) {
@@ -283,8 +290,7 @@ namespace Candy {
             
             for (size_t svIdx = (isInitialUpdate ? 1 : 0); svIdx < SimulationVector::VARSIMVECSIZE;
                  ++svIdx) {
-                partitionEntry.groupId =
-                  fastNextRand(partitionEntry.groupId ^ ~(simVec.vars[svIdx]));
+                partitionEntry.groupId = nextGroupId(partitionEntry.groupId, ~(simVec.vars[svIdx]));
             }
         }
     }
-- 
2.43.0


From e5842fe45b71c46addf5bc7ab42a69dbe8f7acd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 30/36] fix: random simulation did not end when there were no
 correlations left

The reduction rate stayed at 1 and run() waits for it to drop.
---
 src/candy/randomsimulation/Partition.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/candy/randomsimulation/Partition.cc b/src/candy/randomsimulation/Partition.cc
index e8bf1c4..37fc6f8 100644
--- a/src/candy/randomsimulation/Partition.cc
+++ b/src/candy/randomsimulation/Partition.cc
@@ -322,6 +322,9 @@ namespace Candy {
             if (prevCorrCount != 0) {
                 m_reductionRate = 1.0f - ((float)m_correlationCount / (float)prevCorrCount);
             }
+            else if (m_correlationCount == 0) {
+                m_reductionRate = 0.0f;
+            }
         }
         
         ++m_round;
-- 
2.43.0


From 66111eda191e0119736a5c5b7a9ab9e1882e1278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:12 +0000
Subject: [PATCH 31/36] fix: random simulation read variables without values
 for holistically recognized gates

Their backward clauses can contain variables which are no inputs of the gate; the
output was simulated as a constant and conjectured to be a backbone.
---
 src/candy/randomsimulation/ClauseOrder.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/candy/randomsimulation/ClauseOrder.cc b/src/candy/randomsimulation/ClauseOrder.cc
index 29d2559..eac8df3 100644
--- a/src/candy/randomsimulation/ClauseOrder.cc
+++ b/src/candy/randomsimulation/ClauseOrder.cc
@@ -142,6 +142,20 @@ namespace Candy {
         return m_maxVar + 1;
     }
     
+    /** Holistically recognized gates can have backward clauses with variables which are no inputs of the gate. */
+    static bool containsInputsOnly(const Gate& gate, const For& clauses) {
+        for (const Cl* clause : clauses) {
+            for (Lit lit : *clause) {
+                if (lit.var() != gate.out.var()
+                    && !std::binary_search(gate.inp.begin(), gate.inp.end(), lit)
+                    && !std::binary_search(gate.inp.begin(), gate.inp.end(), ~lit)) {
+                    return false;
+                }
+            }
+        }
+        return true;
+    }
+    
     void ClauseOrderImplBase::backtrack(const GateAnalyzer& analyzer, const Gate &gate) {
         if (m_filteringEnabled) {
             // backtrack the gate only if
@@ -167,7 +181,8 @@ namespace Candy {
         const For *usedGateClauses;
         
         if (!gate.hasNonMonotonicParent()
-            || gate.fwd.size() <= gate.bwd.size()) {
+            || gate.fwd.size() <= gate.bwd.size()
+            || !containsInputsOnly(gate, gate.bwd)) {
             usedOutput = ~gate.out;
             usedGateClauses = &gate.fwd;
         }
-- 
2.43.0


From 471a4750e09a689185da3fe2b48b3152e8c5f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:43 +0000
Subject: [PATCH 32/36] fix: option values outside of their ranges were
 accepted

The checks asked for a value which is above the upper and below the lower bound at once, so -threads=0
hung and -szLBDQueue=0 crashed. The bounds of real-valued options are honoured as inclusive or exclusive,
and the default of -vsidsc-dbsize-recalc is within its range.
---
 src/candy/frontend/CLIOptions.cc | 2 +-
 src/candy/utils/Options.h        | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/candy/frontend/CLIOptions.cc b/src/candy/frontend/CLIOptions.cc
index cc598be..36dcad7 100644
--- a/src/candy/frontend/CLIOptions.cc
+++ b/src/candy/frontend/CLIOptions.cc
@@ -77,7 +77,7 @@ namespace SolverOptions {
     BoolOption opt_vsidsc_scope("BRANCHING", "vsidsc-lwcc", "VSIDSC uses LWCC graph scope (default: FULL)", false);
     DoubleOption opt_vsidsc_samplesize("BRANCHING", "vsidsc-sample-size", "VSIDSC sample size for centrality calculation (only for vsidsc-centralities 0, 1)", 1.0, DoubleRange(0.0, false, 1.0, true));
     DoubleOption opt_vsidsc_samplesize_decay("BRANCHING", "vsidsc-sample-size-decay", "VSIDSC decay sample size by factor for repeated centrality calculations (1=no decay)", 1.0, DoubleRange(0.0, false, 1.0, true));
-    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, false, 10.0, true));
+    DoubleOption opt_vsidsc_dbsize_recalc("BRANCHING", "vsidsc-dbsize-recalc", "VSIDSC centrality recalc upon db_reduce if db_size grew by this factor since last calculation (1=every db_size increase, 0=once at start)", 0.0, DoubleRange(0.0, true, 10.0, true));
     BoolOption opt_vsidsc_debug("BRANCHING", "vsidsc-debug", "Active Centrality debugging", false);
 
     BoolOption opt_use_lrb("BRANCHING", "use-lrb", "use LRB branching heuristic (default: use VSIDS)", false);
diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index a3d9a9e..ecd9ff2 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -151,7 +151,8 @@ class DoubleOption : public Option {
             double tmp = strtod(span + len, &end);
 
             if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+                // negated, such that NaN is out of any range
+                if (!(range.begin_inclusive ? tmp >= range.begin : tmp > range.begin) || !(range.end_inclusive ? tmp <= range.end : tmp < range.end)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -210,7 +211,7 @@ class IntOption : public Option {
             int32_t tmp = strtol(span + len, &end, 10);
 
             if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
@@ -280,7 +281,7 @@ class Int64Option : public Option {
             int64_t tmp = strtoll(span + len, &end, 10);
 
             if (end != nullptr) {
-                if (tmp > range.end && tmp < range.begin) {
+                if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
                 }
-- 
2.43.0


From d523d5337a2091b47abe7e64d0136077e0acbd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 33/36] fix: malformed numbers were accepted as option values

strtol and strtod never set the end pointer to null; -K=abc meant 0 and -memory-limit=12MB meant 12.
Such arguments are no settings of the option now and thus get refused as unknown flags.
---
 src/candy/utils/Options.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index ecd9ff2..8097983 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -150,7 +150,7 @@ class DoubleOption : public Option {
             char* end;
             double tmp = strtod(span + len, &end);
 
-            if (end != nullptr) {
+            if (end != span + len && *end == '\0') {
                 // negated, such that NaN is out of any range
                 if (!(range.begin_inclusive ? tmp >= range.begin : tmp > range.begin) || !(range.end_inclusive ? tmp <= range.end : tmp < range.end)) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
@@ -210,7 +210,7 @@ class IntOption : public Option {
             char* end;
             int32_t tmp = strtol(span + len, &end, 10);
 
-            if (end != nullptr) {
+            if (end != span + len && *end == '\0') {
                 if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
@@ -280,7 +280,7 @@ class Int64Option : public Option {
             char* end;
             int64_t tmp = strtoll(span + len, &end, 10);
 
-            if (end != nullptr) {
+            if (end != span + len && *end == '\0') {
                 if (tmp > range.end || tmp < range.begin) {
                     fprintf(stderr, "ERROR! value <%s> is out of range for option \"%s\".\n", span, name);
                     exit(1);
-- 
2.43.0


From 7d463b200c1ef952ed3bd3d8c45027e9e7e81c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 34/36] fix: values of integer options were truncated to 32 bit
 before the range check

-threads=4294967298 was accepted as 2.
---
 src/candy/utils/Options.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 8097983..5c348ae 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -208,7 +208,7 @@ class IntOption : public Option {
 
         if (span == str) {
             char* end;
-            int32_t tmp = strtol(span + len, &end, 10);
+            int64_t tmp = strtoll(span + len, &end, 10);
 
             if (end != span + len && *end == '\0') {
                 if (tmp > range.end || tmp < range.begin) {
-- 
2.43.0


From b4651f08b8f2dfe83f6243082456b782d41dc9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 35/36] fix: values of string options were cut off after 256
 characters and left unterminated

---
 src/candy/utils/Options.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/candy/utils/Options.h b/src/candy/utils/Options.h
index 5c348ae..524a0a5 100644
--- a/src/candy/utils/Options.h
+++ b/src/candy/utils/Options.h
@@ -330,7 +330,7 @@ class StringOption : public Option {
     StringOption(const char* c, const char* n, const char* d, const char* def = "", const bool disabled_ = false) 
         : Option(n, d, c, "<string>", disabled_) {
             len = sprintf(pattern, "-%s=", name);
-            value = new char[256];
+            value = nullptr;
             set(def);
         }
 
@@ -349,8 +349,9 @@ class StringOption : public Option {
     }
 
     void set(const char* val) {
-        // memset(value, 0, 256);
-        strncpy(value, val, 256);
+        char* copy = strdup(val);
+        free(value);
+        value = copy;
     }
 
     char* get() {
-- 
2.43.0


From 7c96ca3383cd452b7e737120125ebb7dd205e003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 36/36] fix: arguments which contain --help anywhere, such as
 file names, were taken for a request for help

---
 src/candy/utils/Options.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/candy/utils/Options.cc b/src/candy/utils/Options.cc
index c76831c..9de3903 100644
--- a/src/candy/utils/Options.cc
+++ b/src/candy/utils/Options.cc
@@ -36,7 +36,7 @@ void parseOptions(int& argc, char** argv, bool strict) {
     int i, j;
     for (i = j = 1; i < argc; i++){
         const char* str = argv[i];
-        if (strstr(str, "--help") != nullptr) {
+        if (strncmp(str, "--help", 6) == 0) {
             printUsageAndExit(argc, argv, true);
         } 
         else {
-- 
2.43.0

