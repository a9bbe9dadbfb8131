// Abstraction refinement with arbitrary (true and false) conjectures and arbitrary refinement heuristics as injected faults.
// Oracle: a reference model of which conjectures are still believed, compared with the clauses that are enabled after every step;
// the answer and the model of the abstraction refinement solver are compared with an independent solver.
#include "scenario.h"
#include <cstring>
#include "candy/core/CNFProblem.h"
#include "candy/core/CandySolverInterface.h"
#include "candy/core/CandySolverResult.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/rsar/ARSolver.h"
#include "candy/rsar/Heuristics.h"
#include "candy/rsar/Refinement.h"
#include "candy/rsar/ApproximationState.h"
using namespace sim;
Formula gen_gate_formula(int maxv);

namespace {
struct Marks { std::map<int, std::set<int>> eq; std::set<int> bb; std::map<const void*, int> cls; int begins = 0; };  // what was asked in the current step
struct EqProxy : Candy::EquivalenceImplications {
    Candy::EquivalenceImplications& t; std::set<int>& rec; EqProxy(Candy::EquivalenceImplications& t_, std::set<int>& r) : t(t_), rec(r) {}
    void addVariableRemovalToWorkQueue(Candy::Var v) noexcept override { rec.insert((int)v); t.addVariableRemovalToWorkQueue(v); }
    const_iterator begin() const noexcept override { return t.begin(); } const_iterator end() const noexcept override { return t.end(); } size_type size() const noexcept override { return t.size(); } bool empty() const noexcept override { return t.empty(); } Candy::Implication at(size_type i) const override { return t.at(i); }
};
struct BbProxy : Candy::Backbones {
    Candy::Backbones& t; std::set<int>& rec; BbProxy(Candy::Backbones& t_, std::set<int>& r) : t(t_), rec(r) {}
    void addVariableRemovalToWorkQueue(Candy::Var v) noexcept override { rec.insert((int)v); t.addVariableRemovalToWorkQueue(v); }
    const_iterator begin() const noexcept override { return t.begin(); } const_iterator end() const noexcept override { return t.end(); } size_type size() const noexcept override { return t.size(); } bool empty() const noexcept override { return t.empty(); } Candy::Lit at(size_type i) const override { return t.at(i); }
};
struct Heur : Candy::RefinementHeuristic {     // marks arbitrary variables, or passes on what a real heuristic marks
    Marks* m; uint64_t seed; int rate, nv, step = 0; std::unique_ptr<Candy::RefinementHeuristic> real; const std::vector<std::vector<int>>* classes;
    void beginRefinementStep() override { step++; m->begins++; if (real) real->beginRefinementStep(); }
    int id(Candy::EquivalenceImplications& e) { auto it = m->cls.find(&e); if (it != m->cls.end()) return it->second; int k = -1; for (auto imp : e) for (size_t i = 0; i < classes->size(); i++) for (int l : (*classes)[i]) if (std::abs(l) - 1 == imp.first.var()) k = (int)i; if (k >= 0) m->cls[&e] = k; return k; }
    void markRemovals(Candy::EquivalenceImplications& e) override {
        int k = id(e); EqProxy p(e, m->eq[k]); if (real) { real->markRemovals(p); return; }
        for (int v = 0; v < nv + 2; v++) if ((int)(mix64(seed ^ mix64((uint64_t)step * 7919 + (uint64_t)(k + 1) * 104729 + (uint64_t)v)) % 1000) < rate) p.addVariableRemovalToWorkQueue(v);
    }
    void markRemovals(Candy::Backbones& b) override { BbProxy p(b, m->bb); if (real) { real->markRemovals(p); return; } for (int v = 0; v < nv + 2; v++) if ((int)(mix64(seed ^ mix64((uint64_t)step * 7919 + (uint64_t)v)) % 1000) < rate) p.addVariableRemovalToWorkQueue(v); }
};
}

struct RefineScenario : Scenario {
    Formula f; std::vector<std::string> opts; std::vector<std::vector<int>> classes; std::vector<int> bbs; int mode, nheur, steps_, varbase, vargap; uint64_t hseed[3]; int rate[3]; bool idc; std::vector<size_t> conf;
    static void body(void* p) { ((RefineScenario*)p)->work(); }
    static int dl(Candy::Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
    static Candy::Lit cl(int l) { return Candy::Lit(std::abs(l) - 1, l < 0); }
    void fail(int code, int a = 0, int b = 0) { log_i(code); log_i(a); log_i(b); log_i(-99); }
    std::unique_ptr<Candy::Conjectures> conjectures() { using namespace Candy; std::unique_ptr<Conjectures> c(new Conjectures()); for (auto& e : classes) { EquivalenceConjecture q; for (int l : e) q.addLit(cl(l)); c->addEquivalence(q); } for (int l : bbs) c->addBackbone(BackboneConjecture(cl(l))); return c; }
    void work() {
        using namespace Candy;
        call_parse_options(opts);
        CNFProblem pb; for (auto& c : f.clauses) { Cl k; for (int l : c) k.push_back(cl(l)); pb.readClause(k); }
        std::unique_ptr<GateAnalyzer> ga; std::map<int, int> deps; // number of inputs an output depends on
        std::unique_ptr<RefinementHeuristic> idch;
        if (idc) {
            ga.reset(new GateAnalyzer(pb)); ga->analyze(); std::map<int, std::set<int>> leaf; GateProblem& g = ga->getResult(); std::map<int, const Gate*> gate; for (const Gate& x : g) if (x.isDefined()) gate[x.out.var()] = &x;
            std::vector<std::pair<int, size_t>> st; std::set<int> done; for (auto& p : gate) if (done.insert(p.first).second) { st.push_back({p.first, 0}); while (!st.empty()) { auto& t = st.back(); const Gate* x = gate[t.first]; if (t.second < x->inp.size()) { int w = x->inp[t.second++].var(); if (gate.count(w) && done.insert(w).second) st.push_back({w, 0}); } else { auto& L = leaf[t.first]; for (Lit l : x->inp) { if (gate.count(l.var())) L.insert(leaf[l.var()].begin(), leaf[l.var()].end()); else L.insert(l.var()); } deps[t.first] = (int)L.size(); st.pop_back(); } } }
            idch = createInputDepCountRefinementHeuristic(*ga, conf); log_i((int)deps.size());
        } else log_i(0);
        Marks m; int nv = std::max(f.nvars, (int)pb.nVars());
        auto lying = [&](int i) { Heur* h = new Heur(); h->m = &m; h->seed = hseed[i]; h->rate = rate[i]; h->nv = nv; h->classes = &classes; return std::unique_ptr<RefinementHeuristic>(h); };
        if (mode == 1) {
            std::unique_ptr<ARSolver> s; if (idch) s.reset(new ARSolver(conjectures(), std::move(idch))); else if (nheur) s.reset(new ARSolver(conjectures(), lying(0))); else s.reset(new ARSolver(conjectures()));
            s->init(pb); lbool r = s->solve(); log_i(r == l_True ? 10 : r == l_False ? 20 : 0); CandySolverResult& res = s->getCandySolverResult();
            if (r == l_True) { std::vector<Lit> ml = res.getModelLiterals(); log_i((int)ml.size()); for (Lit l : ml) log_i(dl(l)); }
            log_i(7654321); return; }
        std::vector<std::unique_ptr<RefinementHeuristic>> hs; if (idch) { // what would the heuristic say
            idch->beginRefinementStep(); for (int v = 0; v < nv; v++) { bool want = deps.count(v) && !conf.empty() && deps[v] > (int)conf[0]; if (deps.count(v) && conf.empty()) want = true; if (idch->probe(v, false) != want) { fail(9, v + 1, want); return; } }
            idch = createInputDepCountRefinementHeuristic(*ga, conf); Heur* h = new Heur(); h->m = &m; h->real = std::move(idch); h->classes = &classes; hs.push_back(std::unique_ptr<RefinementHeuristic>(h)); }
        for (int i = 0; i < nheur; i++) hs.push_back(lying(i));
        size_t nh = hs.size(); std::set<int> vars; int next = nv + varbase; 
        std::unique_ptr<Conjectures> cj = conjectures(); auto strat = createDefaultRefinementStrategy(*cj, std::move(hs), [&]() { int v = next; next += vargap; vars.insert(v); return (Var)v; });
        std::map<int, std::vector<int>> clause; // by assumption variable
        std::vector<std::vector<int>> alive = classes; std::set<int> bba(bbs.begin(), bbs.end());
        for (int step = 0; step <= steps_; step++) {
            m.eq.clear(); m.bb.clear(); m.begins = 0;
            std::unique_ptr<EncodedApproximationDelta> d = step == 0 ? strat->init() : strat->refine();
            if (m.begins != (int)nh) { fail(1, step); return; }
            // ---- reference model
            size_t removed = 0; for (size_t i = 0; i < alive.size(); i++) { std::vector<int> k; for (int l : alive[i]) if (!m.eq[(int)i].count(std::abs(l) - 1)) k.push_back(l); else removed++; alive[i] = k; }
            for (auto it = bba.begin(); it != bba.end();) if (m.bb.count(std::abs(*it) - 1)) it = bba.erase(it); else ++it;
            if (idc) for (auto& e : alive) if (e.size() > 1) for (int l : e) { int v = std::abs(l) - 1; if (deps.count(v)) { bool out = step >= (int)conf.size(); for (int x = 0; x <= step && x < (int)conf.size(); x++) if (deps[v] > (int)conf[x]) out = true; if (out) { fail(10, v + 1, step); return; } } }
            if (idc && nheur == 0) for (auto& p : m.eq) for (int v : p.second) { bool out = deps.count(v) && step >= (int)conf.size(); if (deps.count(v)) for (int x = 0; x <= step && x < (int)conf.size(); x++) if (deps[v] > (int)conf[x]) out = true; if (!out) { fail(11, v + 1, step); return; } }
            // ---- what the strategy says
            for (auto& c : d->getNewClauses()) {
                if (c.size() != 2 && c.size() != 3) { fail(2, step); return; } Lit a = getAssumptionLit(c); std::vector<int> k; bool has = false; for (Lit l : c) { if (l == a) has = true; else k.push_back(dl(l)); }
                if (!has || !vars.count(a.var()) || isActive(a) || clause.count(a.var())) { fail(3, step, a.var()); return; }
                for (int l : k) if (std::abs(l) > nv) { fail(4, step, l); return; } clause[a.var()] = k;
                auto pr = getNonAssumptionLits(c); if (dl(pr.first) != k[0] || dl(pr.second) != k.back()) { fail(12, step); return; } }
            std::set<int> as; std::vector<std::vector<int>> on; size_t act = 0; for (Lit a : d->getAssumptionLiterals()) { if (!as.insert(a.var()).second || !clause.count(a.var())) { fail(5, step, a.var()); return; } if (isActive(a)) { act++; on.push_back(clause[a.var()]); } }
            if (as.size() != clause.size() || as.size() != vars.size()) { fail(6, step); return; }
            if (d->countEnabledClauses() != act) { fail(7, step, (int)act); return; }
            if (step > 0 && d->getNewClauses().size() > removed) { fail(8, step); return; }
            // ---- compare: units are the believed backbones, binaries make exactly the believed classes equivalent
            std::set<int> units; std::map<int, std::set<int>> to; for (auto& k : on) { if (k.size() == 1) units.insert(k[0]); else { to[-k[0]].insert(k[1]); to[-k[1]].insert(k[0]); } }
            if (units != bba) { fail(13, step); return; }
            std::map<int, int> home; for (size_t i = 0; i < alive.size(); i++) if (alive[i].size() > 1) for (int l : alive[i]) { home[l] = (int)i + 1; home[-l] = -(int)i - 1; }
            for (auto& p : to) if (!home.count(p.first)) { fail(14, step, p.first); return; }
            for (auto& p : home) { std::set<int> reach{p.first}; std::vector<int> q{p.first}; while (!q.empty()) { int l = q.back(); q.pop_back(); for (int x : to[l]) if (reach.insert(x).second) q.push_back(x); } size_t want = 0; for (auto& o : home) if (o.second == p.second) want++; if (reach.size() != want) { fail(reach.size() > want ? 15 : 16, step, p.first); return; } for (int l : reach) if (!home.count(l) || home[l] != p.second) { fail(15, step, l); return; } }
            log_i((int)act);
        }
        log_i(7654321);
    }
    void execute() override {
        opts.clear(); classes.clear(); bbs.clear(); conf.clear(); count("probe.cases"); const char* P = "C22";
        mode = draw(W, 3) == 2; idc = draw(W, 3) == 2; nheur = idc ? (mode ? 0 : (int)draw(W, 2)) : (int)draw(W, 4); if (!mode && !idc && !nheur) nheur = 1; steps_ = range(W, 0, 8);
        if (mode) gen_solver_options(opts, false, false); if (mode && draw(W, 2)) opts.push_back("-rsar-max-refinements=" + std::to_string(range(W, 1, 6)));
        static const int meth[] = {10, 0, 1, 2, 11}; opts.push_back("-gate-recognition-method=" + std::to_string(meth[draw(W, 5)]));
        f = idc || draw(W, 2) ? gen_gate_formula(draw(W, 4) == 3 ? 40 : 16) : gen_formula((int)draw(W, 2)); f.planted.clear(); int n = std::max(1, f.max_used());
        std::vector<int> p; for (int v = 1; v <= n; v++) p.push_back(v); for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[draw(W, (uint32_t)i)]);
        std::vector<signed char> model; bool truth = false; if (mode && draw(W, 2)) truth = RefSolver::solve(n, f.clauses, {}, model, 2000) == 10; // conjectures that hold in a model, or any
        auto lit = [&](int v) { return truth ? (model[v] > 0 ? v : -v) : draw(W, 2) ? v : -v; };
        for (size_t q = 0; q < p.size();) { uint32_t k = draw(W, 6); if (k == 0) { q++; continue; } if (k == 1) { bbs.push_back(lit(p[q++])); continue; } int w = range(W, 2, draw(W, 3) == 2 ? 9 : 4); std::vector<int> e; while (w-- && q < p.size()) e.push_back(lit(p[q++])); if (e.size() > 1 || draw(W, 4) == 3) classes.push_back(e); if (classes.size() > 12) break; }
        for (int i = 0; i < 3; i++) { hseed[i] = draw(W, 1u << 30); static const int R[] = {100, 20, 300, 700, 0, 1000}; rate[i] = R[draw(W, 6)]; }
        varbase = draw(W, 2) ? 0 : range(W, 0, 50); vargap = draw(W, 2) ? 1 : range(W, 1, 3);
        if (idc) for (int i = 0, e = range(W, 1, 4); i < e; i++) conf.push_back((size_t)range(W, 0, 8)); if (idc && draw(W, 2)) std::sort(conf.rbegin(), conf.rend());
        RunConfig& c = g_cfg; c.ns_per_step = 100; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 5) == 4; c.heap_reuse = draw(F, 4) != 3; c.max_steps = 400ull * 1000 * 1000;
        bool alloc = draw(F, 14) == 13; if (alloc) { c.alloc_fail_at = 1 + draw(F, 3000); c.alloc_fail_len = 1; }
        auto ls = [](const std::vector<int>& e) { std::string t; for (int l : e) t += std::to_string(l) + " "; return t; };
        std::string how = join(opts) + (mode ? " solve" : " steps " + std::to_string(steps_)) + " heuristics " + std::to_string(nheur) + " (rates " + std::to_string(rate[0]) + " " + std::to_string(rate[1]) + " " + std::to_string(rate[2]) + ")"; if (idc) { how += " input counts"; for (size_t x : conf) how += " " + std::to_string(x); }
        std::string text = to_dimacs(f); describe = "refine " + how + " backbones " + ls(bbs) + " classes"; for (auto& e : classes) describe += " | " + ls(e); if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this); if (error) return; Shared& s = *g_sh;
        if (s.stepcap) { if (!mode) violate(P, "endless", "refinement did not end: " + how); else count("end.too_long"); return; }
        if (alloc && s.f_alloc) { count("end.alloc_failure"); return; }
        if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "refinement died with signal " + std::to_string(r.sig) + ": " + how); return; }
        if (s.heap_corrupt) { violate(P, "heap-corruption", "heap block overrun: " + how); return; }
        nontrivial = !classes.empty() || !bbs.empty();
        if (s.nlog >= 4 && s.log[s.nlog - 1] == -99) {
            int code = s.log[s.nlog - 4], a = s.log[s.nlog - 3], b = s.log[s.nlog - 2];
            static const char* M[] = {"", "a heuristic was not told about the step", "a clause with the wrong number of literals", "a new clause without a fresh assumption literal that disables it", "a clause over foreign variables", "assumption listed twice or without clause", "an assumption is missing", "wrong number of enabled clauses", "more new clauses than removed literals", "probe of the input-count heuristic is wrong", "the input-count heuristic kept an output that depends on too many inputs", "the input-count heuristic removed a variable it should keep", "literals of a clause are given wrongly", "enabled backbones are not the believed ones", "an enabled implication mentions a removed literal", "literals of different classes (or removed ones) are made equivalent", "literals of one class are not all equivalent any more"};
            violate(P, "refinement-" + std::to_string(code), std::string(M[code]) + " (" + std::to_string(a) + ", " + std::to_string(b) + "): " + how); return; }
        if (!s.nlog || s.log[s.nlog - 1] != 7654321) { violate(P, "no-result", "refinement gave no result (exit " + std::to_string(r.code) + "): " + how); return; }
        if (!mode) { count("end.history_judged"); count("probe.steps", (uint64_t)steps_ + 1); count("probe.enabled_at_init", (uint64_t)(s.nlog > 2 ? s.log[1] : 0)); if (idc) { count("cfg.input_count"); count("probe.gates", (uint64_t)s.log[0]); } return; }
        int ans = s.log[1], want = decide(f); count(ans == 10 ? "end.sat" : ans == 20 ? "end.unsat" : "end.unknown");
        if (ans == 0) { violate(P, "no-answer", "the solver gives up without a limit: " + how); return; }
        if (want && ans != want) { violate(P, "wrong-answer", "abstraction refinement answers " + std::to_string(ans) + " instead of " + std::to_string(want) + ": " + how); return; }
        if (ans == 10) { std::map<int, int> val; for (int i = 0; i < s.log[2]; i++) { int l = s.log[3 + i]; val[std::abs(l)] = l; } for (auto& k : f.clauses) { bool t = false; for (int l : k) if (val.count(std::abs(l)) && val[std::abs(l)] == l) t = true; if (!t) { violate(P, "wrong-model", "model does not satisfy clause " + ls(k) + ": " + how); return; } } }
    }
};
Scenario* make_refine() { return new RefineScenario(); }
