// Model minimisation through the API the command line uses, on models of the real solver and on arbitrary models.
// Oracle: enumeration over the literals of the model and over the inputs of the recognised circuit.
#include "scenario.h"
#include <cstring>
#include <functional>
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/frontend/CandyBuilder.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/minimizer/Minimizer.h"
using namespace sim;
Formula gen_gate_formula(int maxv);
struct MinimizeScenario : Scenario {
    Formula f; std::vector<std::string> opts; bool pruned, minimal, project, ownmodel; std::vector<int> given;
    static void body(void* p) { ((MinimizeScenario*)p)->work(); }
    void work() {
        using namespace Candy;
        call_parse_options(opts);
        CNFProblem pb; for (auto& c : f.clauses) { Cl cl; for (int l : c) cl.push_back(Lit(std::abs(l) - 1, l < 0)); pb.readClause(cl); }
        CandySolverResult mine; CandySolverResult* m = &mine;
        if (ownmodel) { for (int l : given) mine.setModelValue(Lit(std::abs(l) - 1, l < 0)); }
        else { CandySolverInterface* s = createSolver(ParallelOptions::opt_static_propagate, SolverOptions::opt_use_lrb); s->init(pb); if (s->solve() != l_True) { log_i(-7); return; } m = &s->getCandySolverResult(); }
        log_i((int)pb.nVars()); for (int v = 0; v < (int)pb.nVars(); v++) { Lit l = m->value(v); log_i(l == lit_Undef ? 0 : l.sign() ? -1 : 1); }
        Minimizer mz(pb, *m); mz.mimimizeModel(pruned, minimal, project);
        std::vector<Lit> r = m->getMinimizedModelLiterals(); log_i((int)r.size()); for (Lit l : r) log_i(l.sign() ? -(l.var() + 1) : l.var() + 1);
        for (int v = 0; v < (int)pb.nVars(); v++) { Lit l = m->value(v); log_i(l == lit_Undef ? 0 : l.sign() ? -1 : 1); }
        GateAnalyzer ga(pb); ga.analyze(); for (int v = 0; v < (int)pb.nVars(); v++) log_i(v < (int)ga.getResult().gates.size() && ga.getResult().gates[v].isDefined());
        log_i(7654321);
    }
    // size of some smaller set of model literals that satisfies all clauses (branch and bound with a node limit)
    static int hitting_set(const std::vector<std::vector<int>>& cls, const std::vector<int>& M, int best) {
        std::vector<std::vector<int>> sets; for (auto& c : cls) { std::vector<int> s; for (int l : c) if (M[std::abs(l)] == (l > 0 ? 1 : -1) && std::find(s.begin(), s.end(), std::abs(l)) == s.end()) s.push_back(std::abs(l)); sets.push_back(s); }
        std::vector<char> in(M.size(), 0), no(M.size(), 0); long nodes = 0; 
        std::function<void(int)> rec = [&](int k) {
            if (++nodes > 20000) return;
            const std::vector<int>* pick = nullptr; size_t w = 1000; int lb = 0; std::vector<char> touched(M.size(), 0);
            for (auto& s : sets) { bool h = false; size_t free = 0; for (int v : s) { if (in[v]) h = true; if (!no[v]) free++; } if (h) continue; if (free < w) { w = free; pick = &s; } bool dis = true; for (int v : s) if (touched[v]) dis = false; if (dis) { lb++; for (int v : s) touched[v] = 1; } }
            if (!pick) { best = std::min(best, k); return; } if (k + lb >= best) return;
            std::vector<int> set; for (int v : *pick) if (!no[v]) { in[v] = 1; rec(k + 1); in[v] = 0; no[v] = 1; set.push_back(v); } for (int v : set) no[v] = 0; };
        rec(0); return best;
    }
    void execute() override {
        opts.clear(); given.clear(); count("probe.cases"); const char* P = "C18";
        gen_solver_options(opts, false, false);
        for (auto it = opts.begin(); it != opts.end();) if (it->compare(0, 14, "-inprocessing=") == 0) it = opts.erase(it); else ++it;
        static const int meth[] = {10, 0, 1, 2, 11}; opts.push_back("-gate-recognition-method=" + std::to_string(meth[draw(W, 5)])); if (draw(W, 3) == 2) opts.push_back("-gate-tries=" + std::to_string(range(W, 1, 8)));
        pruned = draw(W, 2); minimal = draw(W, 2); project = draw(W, 3) == 2; ownmodel = draw(W, 2);
        uint32_t src = draw(W, 8); if (src < 4) f = gen_small(); else if (src < 7) f = gen_gate_formula(13); else { f = draw(W, 2) ? gen_gate_formula(70) : gen_formula(1); if (f.clauses.size() > 300) f.clauses.resize(300); }
        f.planted.clear(); int n = std::max(1, f.max_used()); bool small = n <= 14;
        std::vector<uint32_t> models; std::vector<signed char> given_model;
        if (small) { ModelSet ms(n); for (auto& c : f.clauses) ms.add_clause(c);
            for (uint32_t a = 0; a < (1u << n); a++) if (ms.contains(a)) models.push_back(a);
            if (models.empty()) { count("end.unsatisfiable"); return; } }
        else { std::vector<int> as; std::vector<std::vector<int>> cc = f.clauses; for (int i = 0; i < 5; i++) { int v = range(W, 1, n); cc.push_back({draw(W, 2) ? v : -v}); } if (RefSolver::solve(n, cc, as, given_model, 20000) != 10 && RefSolver::solve(n, f.clauses, as, given_model, 20000) != 10) { count("end.unsatisfiable"); return; } count("probe.large"); }
        if (ownmodel && !small) { for (int v = 1; v <= n; v++) given.push_back(given_model[v] > 0 ? v : -v); }
        else if (ownmodel) { uint32_t a = models[draw(W, (uint32_t)models.size())]; for (int v = 1; v <= n; v++) given.push_back((a >> (v - 1) & 1) ? v : -v); }
        RunConfig& c = g_cfg; c.ns_per_step = draw(F, 2) ? 100 : 1000000; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 5) == 4; c.heap_reuse = draw(F, 4) != 3; c.max_steps = 300ull * 1000 * 1000;
        if (draw(F, 4) == 3) { c.njumps = 1; c.jumps[0].step = 1 + draw(F, 60000u >> draw(F, 8)); c.jumps[0].delta_ns = ((int64_t)range(F, 0, 2000) - 1000) * 1000000000ll; }
        bool alloc = draw(F, 12) == 11; if (alloc) { c.alloc_fail_at = 1 + draw(F, 4000); c.alloc_fail_len = 1; }
        std::string o = std::string(pruned ? "pruned " : "") + (minimal ? "minimal " : "") + (project ? "projected " : "") + (ownmodel ? "given-model " : "") + join(opts);
        describe = "minimize " + o + " | " + f.family + " n=" + std::to_string(n) + " m=" + std::to_string(f.clauses.size()) + (alloc ? " alloc" : "") + "\n" + (ownmodel ? "model " + [&] { std::string s; for (int l : given) s += std::to_string(l) + " "; return s; }() + "\n" : "") + to_dimacs(f);
        RunResult r = go(body, this); if (error) return;
        Shared& s = *g_sh; nontrivial = true;
        if (s.stepcap && minimal && !small) { count("end.large_minimum_unfinished"); return; }
        if (s.stepcap) { violate(P, "endless", "minimisation did not end: " + o); return; }
        if (alloc && s.f_alloc) { count("end.alloc_failure"); return; }
        if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "minimisation died with signal " + std::to_string(r.sig) + ": " + o); return; }
        if (s.heap_corrupt) violate(P, "heap-corruption", "heap block overrun: " + o);
        size_t q = 0; auto get = [&]() { return q < s.nlog ? s.log[q++] : 0; };
        int nv = get(); if (nv == -7) return; // the solver itself gave a wrong answer: C01
        if (nv != n && !(nv == 0 && f.max_used() == 0)) { violate(P, "no-result", "no result: " + o); return; }
        std::vector<int> M((size_t)n + 1, 0), S((size_t)n + 1, 0), M2((size_t)n + 1, 0), out((size_t)n + 1, 0);
        for (int v = 1; v <= nv; v++) M[v] = get(); int k = get(); int size = 0;
        for (int i = 0; i < k && i <= n; i++) { int l = get(); if (std::abs(l) > n || l == 0) { violate(P, "literal-out-of-range", "minimised model has literal " + std::to_string(l) + ": " + o); return; } if (!S[std::abs(l)]) size++; S[std::abs(l)] = l > 0 ? 1 : -1; }
        for (int v = 1; v <= nv; v++) M2[v] = get(); for (int v = 1; v <= nv; v++) out[v] = get();
        if (get() != 7654321) { violate(P, "no-result", "no result: " + o); return; }
        count(pruned ? "probe.pruned" : project ? "probe.projected" : minimal ? "probe.minimum" : "probe.irredundant"); if (project && pruned) count("probe.pruned_projected");
        if (M != M2) violate(P, "model-changed", "minimisation changed the model itself: " + o);
        std::vector<std::vector<int>> cls; for (auto& c2 : f.clauses) { bool taut = false; for (int l : c2) for (int l2 : c2) if (l == -l2) taut = true; if (!taut) cls.push_back(c2); }
        auto hits = [&](const std::vector<int>& T) { for (auto& c2 : cls) { bool t = false; for (int l : c2) if (T[std::abs(l)] == (l > 0 ? 1 : -1)) t = true; if (!t) return false; } return true; };
        if (!hits(M)) return; // C01/C02
        for (int v = 1; v <= n; v++) if (S[v] && S[v] != M[v]) { violate(P, "not-part-of-model", "the minimised model gives variable " + std::to_string(v) + " another value than the model: " + o); return; }
        if (!pruned && !project) {
            if (!hits(S)) { violate(P, "not-a-model", "the minimised model leaves a clause unsatisfied: " + o); return; }
            for (int v = 1; v <= n; v++) if (S[v]) { std::vector<int> T = S; T[v] = 0; if (hits(T)) { violate(P, "redundant-literal", "variable " + std::to_string(v) + " is not needed in the minimised model: " + o); return; } }
            if (minimal && !small) { int best = hitting_set(cls, M, size); if (best < size) violate(P, "not-minimum", "minimised model has " + std::to_string(size) + " literals, " + std::to_string(best) + " are enough: " + o); count("probe.large_minimum_checked"); }
            else if (minimal) { int best = size; for (uint32_t m = 0; m < (1u << n); m++) { int b = __builtin_popcount(m); if (b >= best) continue; std::vector<int> T((size_t)n + 1, 0); for (int v = 1; v <= n; v++) if (m >> (v - 1) & 1) T[v] = M[v]; if (hits(T)) best = b; }
                if (best < size) violate(P, "not-minimum", "minimised model has " + std::to_string(size) + " literals, " + std::to_string(best) + " are enough: " + o); count("probe.minimum_checked"); }
        }
        if (project) for (int v = 1; v <= n; v++) if (S[v] && out[v]) { violate(P, "output-not-projected", "the projected model contains gate output " + std::to_string(v) + ": " + o); return; }
        if (project && !pruned && small) { // what is left of an irredundant model without the gate outputs
            uint32_t om = 0, T0 = 0; for (int v = 1; v <= n; v++) { if (out[v]) om |= 1u << (v - 1); if (S[v]) T0 |= 1u << (v - 1); } bool any = false; count("probe.projection_checked");
            std::vector<uint32_t> masks; for (auto& c2 : cls) { uint32_t m = 0; for (int l : c2) if (M[std::abs(l)] == (l > 0 ? 1 : -1)) m |= 1u << (std::abs(l) - 1); masks.push_back(m); }
            auto hit = [&](uint32_t t) { for (uint32_t m : masks) if (!(m & t)) return false; return true; };
            for (uint32_t e = om;; e = (e - 1) & om) { uint32_t t = T0 | e; if (hit(t)) { bool irr = true; for (int v = 0; v < n && irr; v++) if ((t >> v & 1) && hit(t & ~(1u << v))) irr = false; if (irr) { any = true; break; } } if (!e) break; }
            if (!any) { violate(P, "projection-not-irredundant", "the projected model is not what an irredundant model leaves without gate outputs: " + o); return; }
        }
        if (!small) { // sampled completions
            for (int i = 0; i < 3; i++) { std::vector<int> as; for (int v = 1; v <= n; v++) if (S[v]) as.push_back(S[v] * v); else if (!out[v]) as.push_back(draw(W, 2) ? v : -v); std::vector<signed char> mm; count("probe.extension_sampled");
                if (RefSolver::solve(n, f.clauses, as, mm, 20000) == 20) { violate(P, "does-not-extend", "the minimised model with some values of the don't-care inputs does not extend to a model: " + o); return; } }
            return;
        }
        // whatever values the remaining inputs take, the partial assignment extends to a model
        std::set<uint64_t> have; uint32_t inmask = 0; for (int v = 1; v <= n; v++) if (!out[v]) inmask |= 1u << (v - 1);
        uint32_t smask = 0, sval = 0; for (int v = 1; v <= n; v++) if (S[v]) { smask |= 1u << (v - 1); if (S[v] > 0) sval |= 1u << (v - 1); }
        for (uint32_t a : models) if (((a ^ sval) & smask) == 0) have.insert(a & inmask);
        uint32_t freein = inmask & ~smask; uint64_t want = 1ull << __builtin_popcount(freein); count("probe.extension_checked");
        if (have.size() != want) violate(P, "does-not-extend", "only " + std::to_string(have.size()) + " of " + std::to_string(want) + " assignments of the don't-care inputs extend to a model: " + o);
    }
};
Scenario* make_minimize() { return new MinimizeScenario(); }
