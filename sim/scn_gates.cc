// Gate analysis on circuits, damaged circuits and arbitrary formulas, under clock jumps (time-outs), heap garbage and failing allocations.
// Oracle: the recognised structure is compared with the clauses it is made of, by enumeration.
#include "scenario.h"
#include <cstring>
#include <unistd.h>
#include "candy/core/CNFProblem.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/frontend/CLIOptions.h"
using namespace sim;
typedef std::vector<std::vector<int>> Cls;

// circuits with all kinds of gates, fully or one-sidedly encoded, in any variable and clause order, possibly damaged
Formula gen_gate_formula(int maxv) {
    Formula f; f.family = "gates";
    int ni = range(W, 2, std::min(6, maxv - 1)), ng = range(W, 1, maxv - ni); int nv = ni;
    std::vector<int> open; // outputs nobody uses yet
    for (int g = 0; g < ng; g++) {
        int o = ++nv; int k = range(W, 1, 3); if (draw(W, 8) == 7) k = 4; k = std::min(k, nv - 1);
        std::vector<int> in; for (int t = 0; (int)in.size() < k && t < 50; t++) { int lo = draw(W, 2) ? std::max(1, nv - 4) : 1; int v = lo + (int)draw(W, (uint32_t)(nv - lo)); bool dup = false; for (int x : in) if (std::abs(x) == v) dup = true; if (!dup) in.push_back(draw(W, 2) ? v : -v); }
        k = (int)in.size(); int side = draw(W, 3) ? 0 : range(W, 1, 2); int oo = draw(W, 4) == 3 ? -o : o;
        auto add = [&](bool fwd, std::vector<int> c) { if ((side == 1 && !fwd) || (side == 2 && fwd)) return; c.push_back(fwd ? -oo : oo); f.clauses.push_back(c); };
        switch (draw(W, 6)) {
            case 0: { std::vector<int> b; for (int x : in) { add(true, {x}); b.push_back(-x); } add(false, b); break; }
            case 1: { std::vector<int> b; for (int x : in) { add(false, {-x}); b.push_back(x); } add(true, b); break; }
            case 2: for (int m = 0; m < (1 << k); m++) { std::vector<int> c; for (int i = 0; i < k; i++) c.push_back((m >> i & 1) ? -in[i] : in[i]); add(__builtin_popcount(m) % 2 == 0, c); } break;
            case 3: if (k >= 3) { int a = in[0], b = in[1], c = in[2]; add(true, {-a, b}); add(true, {a, c}); add(false, {-a, -b}); add(false, {a, -c}); if (draw(W, 2)) { add(true, {b, c}); add(false, {-b, -c}); } break; } // fall through
            case 4: { uint32_t tt = draw(W, 65536); for (int m = 0; m < (1 << k); m++) { std::vector<int> c; for (int i = 0; i < k; i++) c.push_back((m >> i & 1) ? -in[i] : in[i]); add(!(tt >> m & 1), c); } break; }
            case 5: if (k >= 3) { int a = in[0], b = in[1], c = in[2]; add(true, {a, b}); add(true, {a, c}); add(true, {b, c}); add(false, {-a, -b}); add(false, {-a, -c}); add(false, {-b, -c}); } else { add(true, {in[0]}); add(false, {-in[0]}); } break;
        }
        open.push_back(oo);
    }
    for (int i = 0, e = range(W, 0, 3); i < e; i++) { std::vector<int> c; for (int j = 0, q = draw(W, 2) ? 1 : range(W, 1, 3); j < q; j++) { int x = open[open.size() - 1 - draw(W, (uint32_t)std::min<size_t>(open.size(), 4))]; c.push_back(draw(W, 5) == 4 ? -x : x); } f.clauses.push_back(c); }
    if (f.clauses.empty()) f.clauses.push_back({1});
    for (int i = 0, e = draw(W, 2) ? range(W, 1, 5) : 0; i < e && !f.clauses.empty(); i++) { // damage
        size_t q = draw(W, (uint32_t)f.clauses.size()); std::vector<int> c = f.clauses[q];
        switch (draw(W, 7)) {
            case 0: f.clauses.erase(f.clauses.begin() + (long)q); break;
            case 1: f.clauses.push_back(c); break;
            case 2: if (!c.empty()) { size_t j = draw(W, (uint32_t)c.size()); f.clauses[q][j] = -c[j]; } break;
            case 3: if (c.size() > 1) f.clauses[q].erase(f.clauses[q].begin() + (long)draw(W, (uint32_t)c.size())); break;
            case 4: { int v = range(W, 1, nv); f.clauses[q].push_back(v); c.push_back(-v); f.clauses.push_back(c); break; } // split
            case 5: { int v = range(W, 1, nv); c.push_back(draw(W, 2) ? v : -v); f.clauses.push_back(c); break; }           // subsumed
            case 6: { std::vector<int> d; for (int j = 0, e2 = range(W, 1, 3); j < e2; j++) { int v = range(W, 1, nv); d.push_back(draw(W, 2) ? v : -v); } f.clauses.push_back(d); break; }
        }
    }
    if (draw(W, 2)) { std::vector<int> p(nv + 1); for (int i = 1; i <= nv; i++) p[i] = i; for (int i = nv; i > 1; i--) std::swap(p[i], p[1 + draw(W, (uint32_t)i)]); for (auto& c : f.clauses) for (int& l : c) l = l > 0 ? p[l] : -p[-l]; }
    if (draw(W, 2)) for (size_t i = f.clauses.size(); i > 1; i--) std::swap(f.clauses[i - 1], f.clauses[draw(W, (uint32_t)i)]);
    f.nvars = nv; return f;
}

// an undamaged, fully encoded circuit without sharing whose outputs are asserted; tells the outputs of its gates
static Formula gen_pristine(int maxv, std::set<int>& need) {
    Formula f; f.family = "pristine"; int nv = range(W, 3, maxv); std::vector<int> tops; int top = 0; for (int i = 0, e = range(W, 1, 2); i < e; i++) tops.push_back(++top);
    std::vector<int> open = tops; std::map<int, std::vector<int>> uses;
    while (!open.empty()) {
        size_t q = draw(W, 2) ? 0 : draw(W, (uint32_t)open.size()); int o = open[q]; open.erase(open.begin() + (long)q); int k = range(W, 2, 4); if (top + k > nv || (uses.size() >= tops.size() && draw(W, 4) == 3)) continue;
        std::vector<int> in, big; for (int i = 0; i < k; i++) { int v = ++top; open.push_back(v); uses[o].push_back(v); in.push_back(draw(W, 2) ? v : -v); } int oo = draw(W, 3) == 2 ? -o : o; uint32_t kind = draw(W, 3);
        if (kind == 0) { for (int x : in) { f.clauses.push_back({-oo, x}); big.push_back(-x); } big.push_back(oo); f.clauses.push_back(big); }
        else if (kind == 1) { for (int x : in) { f.clauses.push_back({oo, -x}); big.push_back(x); } big.push_back(-oo); f.clauses.push_back(big); }
        else for (int m = 0; m < (1 << k); m++) { std::vector<int> c; for (int i = 0; i < k; i++) c.push_back((m >> i & 1) ? -in[i] : in[i]); c.push_back(__builtin_popcount(m) % 2 ? oo : -oo); f.clauses.push_back(c); }
    }
    nv = top;
    std::vector<int> st; for (int v : tops) { f.clauses.push_back({draw(W, 2) ? v : -v}); st.push_back(v); }
    while (!st.empty()) { int v = st.back(); st.pop_back(); if (!uses.count(v) || !need.insert(v).second) continue; for (int x : uses[v]) st.push_back(x); }
    std::vector<int> p(nv + 1); for (int i = 1; i <= nv; i++) p[i] = i; if (draw(W, 2)) for (int i = nv; i > 1; i--) std::swap(p[i], p[1 + draw(W, (uint32_t)i)]);
    for (auto& c : f.clauses) for (int& l : c) l = l > 0 ? p[l] : -p[-l]; std::set<int> n2; for (int v : need) n2.insert(p[v]); need = n2;
    if (draw(W, 2)) for (size_t i = f.clauses.size(); i > 1; i--) std::swap(f.clauses[i - 1], f.clauses[draw(W, (uint32_t)i)]);
    f.nvars = nv; return f;
}

namespace { struct GateRec { int out; bool notmono; std::vector<int> fwd, bwd, inp; }; }

struct GatesScenario : Scenario {
    Formula f; std::vector<std::string> opts, cli; 
    static void body(void* p) { ((GatesScenario*)p)->analyse(); }
    static void cli_body(void* p) { int rc = call_candy_main(((GatesScenario*)p)->cli); exit(rc); }
    void analyse() {
        using namespace Candy;
        call_parse_options(opts);
        CNFProblem pb; for (auto& c : f.clauses) { Cl cl; for (int l : c) cl.push_back(Lit(std::abs(l) - 1, l < 0)); pb.readClause(cl); }
        GateAnalyzer ga(pb); ga.analyze();
        GateProblem& g = ga.getResult();
        auto lit = [](Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; };
        std::map<const Cl*, int> id; int n = 0; log_i((int)pb.nVars()); log_i((int)pb.nClauses());
        for (Cl* c : pb) { id[c] = n++; log_i((int)c->size()); for (Lit l : *c) log_i(lit(l)); }
        auto cls = [&](const std::vector<Cl*>& v) { log_i((int)v.size()); for (Cl* c : v) { auto it = id.find(c); log_i(it == id.end() ? -1 : it->second); } };
        cls(g.getRoots()); cls(g.remainder);
        int defined = 0; for (const Gate& x : g) if (x.isDefined()) defined++;
        log_i(defined); int v = 0;
        for (const Gate& x : g) { if (x.isDefined()) { log_i(x.out.var() == v ? lit(x.out) : 0); log_i(x.hasNonMonotonicParent()); cls(x.fwd); cls(x.bwd); log_i((int)x.inp.size()); for (Lit l : x.inp) log_i(lit(l)); } v++; }
        log_i((int)g.nGates()); log_i((int)g.nMonotonGates()); log_i((int)g.nRoots()); log_i((int)g.stat_patterns); log_i((int)g.stat_semantic); log_i((int)g.stat_holistic);
        int h = 0; for (unsigned c : g.histogram_conflicts) h += (int)c; log_i(h); log_i((int)g.getGateCount());
        for (int k = 0; k < (int)g.nVars(); k++) { log_i(g.isGateOutput(Lit(k, false))); }
        log_i(1234567);
    }
    void execute() override {
        opts.clear(); cli.clear(); count("probe.cases");
        static const int meth[] = {0, 10, 1, 2, 11}; int method = meth[draw(W, 5)];
        opts.push_back("-gate-recognition-method=" + std::to_string(method));
        int tries = draw(W, 2) ? range(W, 1, 12) : 0; if (tries) opts.push_back("-gate-tries=" + std::to_string(tries));
        uint32_t src = draw(W, 8); f = src < 6 ? gen_gate_formula(src < 5 ? 16 : 45) : gen_formula(src == 6 ? 0 : 1); if (src == 7 && f.clauses.size() > 400) f.clauses.resize(400);
        std::set<int> need; if (draw(W, 4) == 3) { f = gen_pristine(src < 5 ? 16 : 45, need); }
        f.planted.clear();
        RunConfig& c = g_cfg; static const uint64_t SPEED[] = {100, 10000, 1000000, 100000000}; c.ns_per_step = SPEED[draw(F, 4)];
        c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 6) == 5; c.heap_reuse = draw(F, 4) != 3; c.max_steps = 400ull * 1000 * 1000;
        bool timeout = draw(F, 3) == 2; if (timeout) { opts.push_back("-gate-timeout=" + std::to_string(range(F, 1, 3))); c.njumps = (int)draw(F, 3); for (int i = 0; i < c.njumps; i++) { c.jumps[i].step = 1 + draw(F, 60000u >> draw(F, 8)); int64_t s = range(F, 1, 20); c.jumps[i].delta_ns = (draw(F, 2) ? -s : s) * 1000000000ll; } if (c.njumps == 2 && c.jumps[1].step < c.jumps[0].step) std::swap(c.jumps[0], c.jumps[1]); }
        bool alloc = draw(F, 12) == 11; if (alloc) { c.alloc_fail_at = 1 + draw(F, 2000); c.alloc_fail_len = 1; }
        std::string text = to_dimacs(f); set_file(FIN, text);
        describe = "gates " + join(opts) + " | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()) + (timeout ? " timeout" : "") + (alloc ? " alloc" : "");
        if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this); if (error) return;
        Shared& s = *g_sh; const char* P = "C17"; std::string o = join(opts);
        nontrivial = true;
        if (s.stepcap) { violate(P, "endless", "gate analysis did not end: " + o); return; }
        if (alloc && s.f_alloc) { count("end.alloc_failure"); return; }
        if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "gate analysis died with signal " + std::to_string(r.sig) + ": " + o); return; }
        if (s.heap_corrupt) violate(P, "heap-corruption", "heap block overrun: " + o);
        // ---- read the log
        size_t q = 0; auto get = [&]() { return q < s.nlog ? s.log[q++] : 0; };
        auto vec = [&]() { std::vector<int> v((size_t)std::max(0, std::min(get(), 1000000))); for (int& x : v) x = get(); return v; };
        int top = std::max(0, std::min(get(), 1000000)); Cls cl((size_t)std::max(0, std::min(get(), 1000000))); for (auto& x : cl) x = vec();
        std::vector<int> roots = vec(), rem = vec(); std::vector<GateRec> gs((size_t)std::max(0, std::min(get(), 1000000)));
        for (auto& g : gs) { g.out = get(); g.notmono = get(); g.fwd = vec(); g.bwd = vec(); g.inp = vec(); }
        int ngates = get(), nmono = get(), nroots = get(), pat = get(), sem = get(), hol = get(), histo = get(), gcount = get();
        for (auto& x : cl) for (int l : x) if (std::abs(l) > top) { violate(P, "no-result", "a clause has a variable beyond the last: " + o); return; }
        std::vector<int> isout((size_t)top + 1, 0); for (int v = 1; v <= top; v++) isout[v] = get();
        if (get() != 1234567) { violate(P, "no-result", "gate analysis gave no result: " + o); return; }
        count("probe.gates", gs.size()); count("probe.remainder_clauses", rem.size());
        // ---- partition
        std::vector<int> seen(cl.size(), 0); bool bad = false; auto use = [&](const std::vector<int>& v) { for (int i : v) { if (i < 0 || i >= (int)cl.size()) bad = true; else seen[i]++; } };
        use(roots); use(rem); for (auto& g : gs) { use(g.fwd); use(g.bwd); }
        if (bad) { violate(P, "foreign-clause", "a clause of the result is not a clause of the problem: " + o); return; }
        for (size_t i = 0; i < cl.size(); i++) if (seen[i] != 1 && !cl[i].empty()) { violate(P, seen[i] ? "clause-twice" : "clause-lost", "clause " + std::to_string(i) + " occurs " + std::to_string(seen[i]) + " times in roots, gates and remainder: " + o); return; }
        // ---- counts
        int mono = 0; for (auto& g : gs) if (!g.notmono) mono++;
        if (ngates != (int)gs.size() || gcount != ngates || nmono != mono || nroots != (int)roots.size()) violate(P, "wrong-count", "reports " + std::to_string(ngates) + " gates, " + std::to_string(nmono) + " monotone but there are " + std::to_string(gs.size()) + " and " + std::to_string(mono) + ": " + o);
        if (pat + sem + hol != ngates - nmono || histo != sem + hol) violate(P, "wrong-statistics", "non-monotone gates " + std::to_string(ngates - nmono) + " but statistics say " + std::to_string(pat) + "+" + std::to_string(sem) + "+" + std::to_string(hol) + ": " + o);
        if ((pat && (method == 1 || method == 2)) || (sem && (method == 0 || method == 2)) || (hol && (method != 2 && method != 11))) violate(P, "method-not-allowed", "a gate was recognised with a method that is switched off: " + o);
        // ---- shape
        std::vector<int> owner((size_t)top + 1, -1); 
        for (size_t k = 0; k < gs.size(); k++) {
            GateRec& g = gs[k]; if (g.out == 0 || std::abs(g.out) > top || !isout[std::abs(g.out)]) { violate(P, "gate-without-output", "gate stored under another variable: " + o); return; }
            owner[std::abs(g.out)] = (int)k; std::set<int> want;
            for (int i : g.fwd) { bool has = false; for (int l : cl[i]) { if (l == -g.out) has = true; else want.insert(l); } if (!has) violate(P, "bad-gate-clause", "clause of a gate does not contain its output: " + o); }
            for (int i : g.bwd) { bool has = false; for (int l : cl[i]) if (l == g.out) has = true; if (!has) violate(P, "bad-gate-clause", "clause of a gate does not contain its output: " + o); }
            if (want != std::set<int>(g.inp.begin(), g.inp.end()) || want.size() != g.inp.size()) violate(P, "wrong-inputs", "inputs of gate " + std::to_string(g.out) + " differ from the literals of its clauses: " + o);
            if (g.fwd.empty()) violate(P, "empty-gate", "gate without defining clause: " + o);
        }
        for (int v = 1; v <= top; v++) if (isout[v] != (owner[v] >= 0)) violate(P, "wrong-count", "isGateOutput disagrees for variable " + std::to_string(v));
        if (!violations.empty()) return;
        // ---- nothing is missed in a circuit encoded by the book
        if (!need.empty() && !timeout && method != 1 && method != 2) { count("probe.pristine"); for (int v : need) if (owner[v] < 0) { violate(P, "gate-missed", "the gate with output " + std::to_string(v) + " of a fully encoded circuit is not recognised: " + o); return; } }
        // ---- semantics of each gate
        for (auto& g : gs) {
            std::set<int> vs; for (int i : g.fwd) for (int l : cl[i]) vs.insert(std::abs(l)); for (int i : g.bwd) for (int l : cl[i]) vs.insert(std::abs(l)); vs.erase(std::abs(g.out));
            std::vector<int> var(vs.begin(), vs.end()); if (var.size() > 12) { count("probe.gate_too_wide"); continue; }
            std::vector<signed char> a((size_t)top + 1, 0); int un = 0, over = 0;
            for (uint32_t m = 0; m < (1u << var.size()); m++) {
                for (size_t i = 0; i < var.size(); i++) a[var[i]] = (m >> i & 1) ? 1 : -1;
                auto ok = [&](int outv) { a[std::abs(g.out)] = (g.out > 0) == (outv > 0) ? 1 : -1; for (auto* set : {&g.fwd, &g.bwd}) for (int i : *set) { bool t = false; for (int l : cl[i]) if (a[std::abs(l)] == (l > 0 ? 1 : -1)) t = true; if (!t) return false; } return true; };
                bool t = ok(1), e = ok(-1); if (t && e) un++; if (!t && !e) over++;
            }
            if (over) { violate(P, "gate-constrains-inputs", "clauses of gate " + std::to_string(g.out) + " allow no output value for " + std::to_string(over) + " input assignments: " + o); return; }
            count(g.notmono ? "probe.functional_gate_checked" : "probe.monotone_gate_checked");
            if (g.notmono && un) {
                if (method != 2 && method != 11) { violate(P, "output-undefined", "output of non-monotone gate " + std::to_string(g.out) + " is not determined for " + std::to_string(un) + " input assignments: " + o); return; }
                Formula h = f; h.planted.clear(); for (auto* set : {&g.fwd, &g.bwd}) for (int i : *set) { std::vector<int> c2; for (int l : cl[i]) if (std::abs(l) != std::abs(g.out)) c2.push_back(l); h.clauses.push_back(c2); }
                count("probe.holistic_gate_checked"); if (decide(h) == 10) { violate(P, "output-undefined", "output of gate " + std::to_string(g.out) + " is determined neither by its clauses nor by the formula: " + o); return; }
            }
        }
        // ---- hierarchy and polarity
        std::vector<int> state(gs.size(), 0); std::vector<std::pair<int, size_t>> st; std::vector<std::vector<int>> succ(gs.size());
        for (size_t k = 0; k < gs.size(); k++) for (auto* set : {&gs[k].fwd, &gs[k].bwd}) for (int i : *set) for (int l : cl[i]) { int w = owner[std::abs(l)]; if (w >= 0 && w != (int)k) succ[k].push_back(w); }
        for (size_t k = 0; k < gs.size(); k++) if (!state[k]) { st.push_back({(int)k, 0}); state[k] = 1; while (!st.empty()) { auto& t = st.back(); if (t.second < succ[t.first].size()) { int w = succ[t.first][t.second++]; if (state[w] == 1) { violate(P, "cyclic", "gates depend on each other in a circle: " + o); return; } if (!state[w]) { state[w] = 1; st.push_back({w, 0}); } } else { state[t.first] = 2; st.pop_back(); } } }
        std::set<int> used; for (int i : roots) for (int l : cl[i]) used.insert(l);
        for (auto& g : gs) for (int l : g.inp) { used.insert(l); if (g.notmono) used.insert(-l); }
        for (auto& g : gs) { if (!used.count(g.out)) violate(P, "unused-output", "gate " + std::to_string(g.out) + " is used nowhere: " + o); if (!g.notmono && used.count(g.out) && used.count(-g.out)) { violate(P, "not-monotone", "gate " + std::to_string(g.out) + " is used in both polarities but treated as monotone: " + o); return; } }
        for (int i : rem) for (int l : cl[i]) if (owner[std::abs(l)] >= 0) { violate(P, "output-in-remainder", "output of a gate occurs in a remaining clause: " + o); return; }
        // ---- dropping the backward half of monotone gates must not change the answer
        Formula h = f; h.clauses.clear(); for (int i : roots) h.clauses.push_back(cl[i]); for (int i : rem) h.clauses.push_back(cl[i]); for (auto& g : gs) { for (int i : g.fwd) h.clauses.push_back(cl[i]); if (g.notmono) for (int i : g.bwd) h.clauses.push_back(cl[i]); }
        bool empty = false; for (auto& c2 : cl) if (c2.empty()) empty = true;
        if (!empty) { int x = decide(f), y = decide(h); if (x && y && x != y) { violate(P, "not-equisatisfiable", "without the backward clauses of monotone gates the formula becomes satisfiable: " + o); return; } count(x == 20 ? "probe.unsat_structure" : "probe.sat_structure"); }
        // ---- the statistics the command line prints
        if (draw(W, 3) == 2 && !alloc) {
            cli = opts; cli.push_back("-gate-stats"); cli.push_back(file_path(FIN));
            uint64_t hs = draw(F, 2) ? 0 : 1 + draw(F, 1000000); if (!timeout) { c.heap_seed = hs; }
            RunResult t = go(cli_body, this); if (error) return;
            if (g_sh->stepcap) { violate(P, "endless", "gate statistics did not end: " + o); return; }
            if (t.sig || t.code != 0) { violate(P, "stats-exit", "-gate-stats ends with code " + std::to_string(t.code) + " signal " + std::to_string(t.sig) + ": " + o); return; }
            if (!lines_with(t.out, "s ").empty()) violate(P, "stats-status", "-gate-stats prints a status line");
            auto num = [&](const char* k) { std::vector<std::string> l = lines_with(t.out, std::string("c ") + k + ": "); return l.size() == 1 ? atoi(l[0].c_str() + strlen(k) + 4) : -1; };
            int G = num("Gates"), M = num("Monoton"), R = num("Roots"), X = num("RemainingClauses"), p1 = num("StatsPatterns"), p2 = num("StatsSemantic"), p3 = num("StatsHolistic");
            count("probe.gate_stats");
            if (G < 0 || M < 0 || R < 0 || X < 0 || p1 + p2 + p3 != G - M || num("Variables") != top || num("Clauses") != (int)cl.size()) violate(P, "stats-inconsistent", "-gate-stats: " + std::to_string(G) + " gates, " + std::to_string(M) + " monotone, statistics " + std::to_string(p1) + "+" + std::to_string(p2) + "+" + std::to_string(p3) + ": " + o);
            if (!timeout && (G != ngates || M != nmono || R != nroots || X != (int)rem.size() || p1 != pat || p2 != sem || p3 != hol)) violate(P, "stats-differ", "-gate-stats prints other numbers than the analysis of the same formula: " + o);
        }
    }
};
Scenario* make_gates() { return new GatesScenario(); }
