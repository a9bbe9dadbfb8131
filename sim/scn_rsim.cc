// Random simulation of gate structures with the source of randomness behind a seam: honest generators, stuck, constant,
// repeating and correlated ones, under clock jumps (time limits), heap garbage and failing allocations.
// Oracle: the circuit is evaluated once more, clause by clause, on exactly the assignments that were handed to the simulator.
#include "scenario.h"
#include <cstring>
#include "candy/core/CNFProblem.h"
#include "candy/gates/GateAnalyzer.h"
#include "candy/frontend/CLIOptions.h"
#include "candy/randomsimulation/RandomSimulator.h"
#include "candy/randomsimulation/Randomization.h"
#include "candy/randomsimulation/ClauseOrder.h"
#include "candy/randomsimulation/Partition.h"
#include "candy/randomsimulation/Propagation.h"
#include "candy/randomsimulation/Conjectures.h"
#include "candy/frontend/RandomSimulationFrontend.h"
#include "candy/utils/Runtime.h"
using namespace sim;
Formula gen_gate_formula(int maxv);

namespace {
const int NW = Candy::SimulationVector::VARSIMVECSIZE;
typedef std::vector<uint64_t> Vec;
struct Round { std::map<int, Vec> in; double cpu; };
struct Tape2 { std::vector<Round> rounds; std::vector<int> which; };   // what the simulator was given
uint64_t word(uint64_t seed, int src, int round, int v, int i) {
    uint64_t r = mix64(seed ^ mix64((uint64_t)round * 1000003 + (uint64_t)v * 131 + (uint64_t)i + 7));
    switch (src) {
        case 0: return r;                                                            // honest
        case 1: return (mix64(seed + (uint64_t)v) & 1) ? ~0ull : 0;                  // stuck: one assignment only
        case 2: return mix64(seed ^ (uint64_t)(v * 977 + i));                        // the same in every round
        case 3: return mix64(seed ^ (uint64_t)((v % 2) * 977 + i + round * 4099));   // inputs correlated
        case 4: return r & mix64(r) & mix64(r + 1) & mix64(r + 2) & mix64(r + 3);    // rarely one
        case 5: return i == (int)(mix64(seed + round) % NW) ? r : 0;                 // one live word
        case 6: return round == 0 ? 0 : (i == NW - 1 ? (r & 1) << (r >> 8 & 63) : 0); // a difference late and in the last word only
        default: return ~0ull;
    }
}
struct Source : Candy::Randomization {                 // the seam: my own generator, or a recording wrapper around a real one
    Tape2* t; uint64_t seed; int src; std::unique_ptr<Candy::Randomization> real; int id; bool rec;
    void randomize(Candy::SimulationVectors& s, const std::vector<Candy::SimulationVectors::index_t>& idx) override {
        if (rec) { t->rounds.emplace_back(); t->rounds.back().cpu = Candy::get_cpu_time(); }
        if (id >= 0) t->which.push_back(id);
        if (real) real->randomize(s, idx);
        else for (auto v : idx) for (int i = 0; i < NW; i++) s.get(v).vars[i] = word(seed, src, (int)t->which.size() + (int)t->rounds.size(), (int)v, i);
        if (rec) for (auto v : idx) { Vec& w = t->rounds.back().in[(int)v]; for (int i = 0; i < NW; i++) w.push_back(s.get(v).vars[i]); }
    }
};
struct Filter : Candy::GateFilter { std::unordered_set<Candy::Var> s; std::unordered_set<Candy::Var> getEnabledOutputVars() override { return s; } };
struct Conj { std::vector<int> bb; std::vector<std::vector<int>> eq; };
}

struct RsimScenario : Scenario {
    Formula f; std::vector<std::string> opts; uint64_t seed, fseed; int src, order, sched, filt, nruns, rounds[3], alt, front; double limit; int sizef; bool bbf, rrat;
    static void body(void* p) { ((RsimScenario*)p)->work(); }
    static int dl(Candy::Lit l) { return l.sign() ? -(l.var() + 1) : l.var() + 1; }
    static Conj conv(const Candy::Conjectures& c) { Conj r; for (auto& b : c.getBackbones()) r.bb.push_back(dl(b.getLit())); for (auto& e : c.getEquivalences()) { r.eq.emplace_back(); for (auto l : e) r.eq.back().push_back(dl(l)); } return r; }
    static void show(const Conj& r, const std::set<int>& on) { std::string t = "outputs"; for (int v : on) t += " " + std::to_string(v + 1); t += " backbones"; for (int l : r.bb) t += " " + std::to_string(l); for (auto& e : r.eq) { t += " | "; for (int l : e) t += std::to_string(l) + " "; } tracef("%s\n", t.c_str()); }
    void fail(int code, int a = 0, int b = 0) { log_i(code); log_i(a); log_i(b); log_i(-99); }
    void work() {
        using namespace Candy;
        call_parse_options(opts);
        CNFProblem pb; for (auto& c : f.clauses) { Cl cl; for (int l : c) cl.push_back(Lit(std::abs(l) - 1, l < 0)); pb.readClause(cl); }
        GateAnalyzer ga(pb); ga.analyze(); GateProblem& g = ga.getResult();
        // ---- the gates, in an order in which inputs come first
        std::map<int, const Gate*> gate; for (const Gate& x : g) if (x.isDefined()) gate[x.out.var()] = &x;
        std::vector<int> topo; std::set<int> done; std::vector<std::pair<int, size_t>> st;
        for (auto& p : gate) if (!done.count(p.first)) { st.push_back({p.first, 0}); done.insert(p.first); while (!st.empty()) { auto& t = st.back(); const Gate* x = gate[t.first]; if (t.second < x->inp.size()) { int w = x->inp[t.second++].var(); if (gate.count(w) && done.insert(w).second) st.push_back({w, 0}); } else { topo.push_back(t.first); st.pop_back(); } } }
        log_i((int)gate.size());
        // ---- which outputs take part
        std::set<int> on; Filter* flt = nullptr; if (filt == 2) { flt = new Filter(); for (int v : topo) if (mix64(fseed + (uint64_t)v) % 4) flt->s.insert(v); }
        for (int v : topo) { bool ok = filt == 0 || (filt == 1 ? gate[v]->hasNonMonotonicParent() : flt->s.count(v) > 0); for (Lit l : gate[v]->inp) if (gate.count(l.var()) && !on.count(l.var())) ok = false; if (ok) on.insert(v); }
        log_i((int)on.size());
        if (front) { // through the front end: what holds for every assignment is never refuted, the filters drop what they say
            double t0 = get_cpu_time(); std::unique_ptr<Conjectures> cj; try { cj = performRandomSimulation(ga, limit); } catch (OutOfTimeException&) { if (get_cpu_time() - t0 <= limit || limit <= 0) fail(1); log_i(77); return; }
            Conj r = conv(*cj); show(r, on); verify_complete(r, gate, topo, on); return; }
        BitparallelRandomSimulatorBuilder b(ga); Tape2 tp;
        if (order) b.withClauseOrderStrategy(order == 1 ? createRecursiveClauseOrder() : createNonrecursiveClauseOrder());
        if (sched) b.withPartitionStrategy(createDefaultPartition(sched == 1 ? createLogCompressionScheduleStrategy() : sched == 2 ? createNullCompressionScheduleStrategy() : createLinearCompressionScheduleStrategy((unsigned)sched - 2)));
        if (filt == 1) b.withGateFilter(createNonmonotonousGateFilter(ga)); if (filt == 2) b.withGateFilter(std::unique_ptr<GateFilter>(flt));
        if (rrat) b.withReductionRateAbortThreshold(0.05f);
        auto mk = [&](int id, bool rec) { auto s = std::unique_ptr<Source>(new Source()); s->t = &tp; s->seed = seed + (uint64_t)(id + 1) * 77; s->src = src; s->id = id; s->rec = rec; if (src == 8) s->real = createSimpleRandomization(); if (src == 9) s->real = createRandomizationBiasedToTrue(1 + (unsigned)(seed % 4)); if (src == 10) s->real = createRandomizationBiasedToFalse(1 + (unsigned)(seed % 4)); if (src == 11) s->real = createRandomizationCyclicallyBiasedToTrue(1, 1 + (unsigned)(seed % 4), 1); return s; };
        if (!alt) b.withRandomizationStrategy(mk(-1, true));
        else { auto w = std::unique_ptr<Source>(new Source()); w->t = &tp; w->id = -1; w->rec = true; w->real = alternateRandomizations(mk(0, false), mk(1, false), (unsigned)alt); b.withRandomizationStrategy(std::move(w)); }
        auto rs = b.build();
        for (int q = 0; q < nruns; q++) {
            size_t before = tp.rounds.size(); double t0 = get_cpu_time();
            Conj r; try { Conjectures c = rounds[q] == 0 ? rs->run() : limit < 0 ? rs->run((unsigned)rounds[q]) : rs->run((unsigned)rounds[q], limit); r = conv(c);
                if (sizef) { Conj x = conv(createSizeConjectureFilter((size_t)sizef)->apply(c)); Conj y = r; y.eq.clear(); for (auto& e : r.eq) if ((int)e.size() <= sizef) y.eq.push_back(e); if (x.bb != y.bb || x.eq != y.eq) { fail(2, q); return; } }
                if (bbf) { Conj x = conv(createBackboneRemovalConjectureFilter()->apply(c)); if (!x.bb.empty() || x.eq != r.eq) { fail(3, q); return; } } }
            catch (OutOfTimeException&) { if (limit <= 0 || get_cpu_time() - t0 <= limit) { fail(1, q); return; } log_i(77); return; }
            size_t n = tp.rounds.size() - before;
            if (limit > 0 && n && tp.rounds.back().cpu - tp.rounds[before].cpu > limit) { fail(4, q); return; }
            if (rounds[q]) { unsigned per = SimulationVector::VARSIMVECVARS; if ((!rrat && (uint64_t)n * per < (uint64_t)rounds[q]) || (uint64_t)n * per > (uint64_t)rounds[q] + 2 * per) { fail(5, (int)n, rounds[q]); return; } }
            for (size_t i = 0; i < tp.which.size(); i++) if (tp.which[i] != (int)(i / (unsigned)alt % 2)) { fail(6, (int)i, alt); return; }
            show(r, on); int bad = verify_exact(r, tp, gate, topo, on, true); if (bad > 0) { int other = verify_exact(r, tp, gate, topo, on, false); if (other > 0) { fail(10 + bad, q); return; } }
            if (bad < 0) { log_i(78); return; }
            log_i(70);
        }
        log_i(7654321);
    }
    // value of each output under the recorded assignments; inverted: a one stands for the negative literal
    static bool eval(const std::vector<const Candy::Gate*>& order, const std::map<int, Vec>& in, std::map<int, Vec>& val) {
        using namespace Candy;
        val = in; size_t n = in.empty() ? 1 : in.begin()->second.size(); auto get = [&](int v) -> Vec& { auto it = val.find(v); if (it == val.end()) it = val.emplace(v, Vec(n, 0)).first; return it->second; };
        for (const Gate* x : order) {
            auto all = [&](const For& cls) { Vec a(n, ~0ull); for (const Cl* c : cls) { Vec s(n, 0); for (Lit l : *c) if (l.var() != x->out.var()) { Vec& w = get(l.var()); for (size_t i = 0; i < n; i++) s[i] |= l.sign() ? ~w[i] : w[i]; } for (size_t i = 0; i < n; i++) a[i] &= s[i]; } return a; };
            Vec t = all(x->fwd); bool known = true; for (const Cl* c : x->bwd) for (Lit l : *c) if (l.var() != x->out.var() && std::none_of(x->inp.begin(), x->inp.end(), [&](Lit i) { return i.var() == l.var(); })) known = false;
            if (x->hasNonMonotonicParent() && known) { Vec e = all(x->bwd); for (size_t i = 0; i < n; i++) if (t[i] != ~e[i]) return false; }
            if (x->out.sign()) for (auto& w : t) w = ~w; val[x->out.var()] = t;
        }
        return true;
    }
    int verify_exact(const Conj& r, const Tape2& tp, std::map<int, const Candy::Gate*>& gate, const std::vector<int>& topo, const std::set<int>& on, bool invert) {
        std::map<int, Vec> sig; std::vector<const Candy::Gate*> ord; for (int v : topo) if (on.count(v)) ord.push_back(gate[v]);
        for (auto& rd : tp.rounds) { std::map<int, Vec> in = rd.in, val; if (invert) for (auto& p : in) for (auto& w : p.second) w = ~w; if (in.empty()) in[-1] = Vec((size_t)NW, 0); if (!eval(ord, in, val)) return -1; for (int v : on) { Vec& s = sig[v]; s.insert(s.end(), val[v].begin(), val[v].end()); } }
        if (tp.rounds.empty()) return -1;
        std::set<int> bb; std::map<Vec, std::vector<int>> cls;
        for (int v : on) { Vec& s = sig[v]; bool one = true, zero = true; for (uint64_t w : s) { if (w != ~0ull) one = false; if (w != 0) zero = false; } if (one) bb.insert(v + 1); else if (zero) bb.insert(-(v + 1)); else { bool neg = s[0] & 1; if (neg) for (auto& w : s) w = ~w; cls[s].push_back(neg ? -(v + 1) : v + 1); } }
        std::set<int> got(r.bb.begin(), r.bb.end()); if (got.size() != r.bb.size()) return 1; if (got != bb) { for (int l : got) if (!bb.count(l)) return 2; return 3; }
        std::map<int, int> want; for (auto& p : cls) if (p.second.size() > 1) { int first = *std::min_element(p.second.begin(), p.second.end(), [](int a, int b2) { return std::abs(a) < std::abs(b2); }); for (int l : p.second) want[std::abs(l)] = l > 0 ? first : -first; }
        std::set<int> seen; std::set<int> firsts;
        for (auto& e : r.eq) { if (e.size() < 2) return 4; int first = 0; for (int l : e) { if (!seen.insert(std::abs(l)).second) return 5; auto it = want.find(std::abs(l)); if (it == want.end()) return 6; int w = l > 0 ? it->second : -it->second; if (!first) first = w; else if (first != w) return 7; } if (!firsts.insert(std::abs(first)).second) return 8; }
        if (seen.size() != want.size()) return 9;
        return 0;
    }
    void verify_complete(const Conj& r, std::map<int, const Candy::Gate*>& gate, const std::vector<int>& topo, const std::set<int>& on) {
        std::set<int> ins; std::vector<const Candy::Gate*> ord; for (int v : topo) if (on.count(v)) { ord.push_back(gate[v]); for (auto l : gate[v]->inp) if (!gate.count(l.var())) ins.insert(l.var()); }
        if (ins.size() > 13) { log_i(78); return; }
        size_t words = ins.size() <= 6 ? 1 : (size_t)1 << (ins.size() - 6); std::map<int, Vec> in, val; int k = 0; for (int v : ins) { Vec w(words, 0); for (size_t m = 0; m < words * 64; m++) if (m >> k & 1) w[m / 64] |= 1ull << (m % 64); in[v] = w; k++; }
        if (in.empty()) in[-1] = Vec(1, 0);
        if (!eval(ord, in, val)) { log_i(78); return; }
        std::map<int, int> cl; std::set<int> bb(r.bb.begin(), r.bb.end()); int id = 0; std::set<int> seen; for (auto& e : r.eq) { id++; if (sizef && (int)e.size() > sizef) { fail(21); return; } for (int l : e) { cl[l] = id; cl[-l] = -id; if (!seen.insert(std::abs(l)).second || !on.count(std::abs(l) - 1)) { fail(22); return; } } }
        for (int l : bb) if (bb.count(-l) || seen.count(std::abs(l)) || !on.count(std::abs(l) - 1)) { fail(23); return; }
        if (bbf && !bb.empty()) { fail(24); return; }
        std::map<Vec, std::vector<int>> same;
        for (int v : on) { Vec s = val[v]; bool one = true, zero = true; for (uint64_t w : s) { if (w != ~0ull) one = false; if (w) zero = false; } if (one || zero) { if (!bbf && !bb.count(one ? v + 1 : -(v + 1))) { fail(25, v + 1); return; } continue; } bool neg = s[0] & 1; if (neg) for (auto& w : s) w = ~w; same[s].push_back(neg ? -(v + 1) : v + 1); }
        for (auto& p : same) if (p.second.size() > 1) { int c = 0; bool inbb = false; for (int l : p.second) if (bb.count(l) || bb.count(-l)) inbb = true; 
            for (int l : p.second) { int x = inbb ? (bb.count(l) ? 1 : bb.count(-l) ? -1 : 0) : cl.count(l) ? cl[l] : 0; if (inbb && !x) { fail(26, l); return; } if (!c) c = x ? x : -1000000; else if ((x ? x : -1000000) != c) { fail(27, l); return; } }
            if (c == -1000000 && !inbb && !sizef && !bbf) { fail(28, p.second[0]); return; } }
        log_i(71);
    }
    void execute() override {
        opts.clear(); count("probe.cases"); const char* P = "C21";
        static const int meth[] = {0, 10, 1, 2, 11}; opts.push_back("-gate-recognition-method=" + std::to_string(meth[draw(W, 5)])); if (draw(W, 4) == 3) opts.push_back("-gate-tries=" + std::to_string(range(W, 1, 12)));
        uint32_t kind = draw(W, 8); f = kind < 5 ? gen_gate_formula(16) : kind < 6 ? gen_gate_formula(45) : kind == 6 ? gen_circuit(range(W, 2, 6), range(W, 3, 25), draw(W, 2)) : gen_formula(0); f.planted.clear();
        seed = draw(W, 1u << 30); fseed = draw(W, 1u << 30); src = (int)draw(W, 12); if (draw(W, 3) == 0) src = 0; order = (int)draw(W, 3); sched = (int)draw(W, 6); filt = draw(W, 2) ? 0 : (int)draw(W, 3); nruns = draw(W, 4) == 3 ? range(W, 2, 3) : 1; rrat = draw(W, 6) == 5; alt = draw(W, 4) == 3 ? range(W, 1, 4) : 0;
        for (int i = 0; i < 3; i++) { rounds[i] = draw(W, 3) ? range(W, 1, 4) * 2048 - (int)draw(W, 3) * 700 : range(W, 1, 2048); if (draw(W, 12) == 11) rounds[i] = 2048 * range(W, 5, 18); if (rrat && draw(W, 2) && sched != 2 && src != 8) rounds[i] = 0; }
        front = draw(W, 4) == 3; sizef = draw(W, 3) == 2 ? range(W, 2, 4) : 0; bbf = draw(W, 4) == 3; limit = -1; if (draw(F, 3) == 2) limit = draw(F, 2) ? range(F, 1, 3) : 0;
        if (rrat) { bool unbounded = false; for (int i = 0; i < nruns; i++) if (!rounds[i]) unbounded = true; if (unbounded && limit > 0) limit = -1; }
        RunConfig& c = g_cfg; static const uint64_t SPEED[] = {100, 10000, 100000, 1000000}; c.ns_per_step = SPEED[draw(F, 4)]; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 5) == 4; c.heap_reuse = draw(F, 4) != 3; c.max_steps = 400ull * 1000 * 1000;
        if (draw(F, 4) == 3) { c.njumps = 1; c.jumps[0].step = 1 + draw(F, 60000u >> draw(F, 8)); c.jumps[0].delta_ns = ((int64_t)range(F, 0, 2000) - 1000) * 1000000000ll; }
        bool alloc = draw(F, 14) == 13; if (alloc) { c.alloc_fail_at = 1 + draw(F, 3000); c.alloc_fail_len = 1; }
        if (front) { opts.push_back("-rs-rounds=" + std::to_string(std::max(1, rounds[0]))); if (rrat) opts.push_back("-rs-abort-by-rrat"); if (filt == 1) opts.push_back("-rs-only-nonmono-gates"); if (filt == 2) filt = 0; if (sizef) opts.push_back("-rs-max-conj-size=" + std::to_string(sizef)); if (bbf) opts.push_back("-rs-remove-backbone-conj"); }
        std::string how = join(opts) + " source " + std::to_string(src) + " order " + std::to_string(order) + " schedule " + std::to_string(sched) + " filter " + std::to_string(filt) + (alt ? " alternating " + std::to_string(alt) : "") + (rrat ? " rrat" : "") + (front ? " frontend" : "") + " rounds " + std::to_string(rounds[0]) + " runs " + std::to_string(nruns) + " limit " + std::to_string(limit);
        std::string text = to_dimacs(f); describe = "rsim " + how + " | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()); if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this); if (error) return; Shared& s = *g_sh;
        if (s.stepcap) { violate(P, "endless", "random simulation did not end: " + how); return; }
        if (alloc && s.f_alloc) { count("end.alloc_failure"); return; }
        if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "random simulation died with signal " + std::to_string(r.sig) + ": " + how); return; }
        if (s.heap_corrupt) { violate(P, "heap-corruption", "heap block overrun: " + how); return; }
        if (s.nlog >= 2) { count("probe.gates", (uint64_t)s.log[0]); count("probe.outputs_simulated", (uint64_t)s.log[1]); nontrivial = s.log[0] > 0; }
        if (s.nlog >= 4 && s.log[s.nlog - 1] == -99) {
            int code = s.log[s.nlog - 4], a = s.log[s.nlog - 3], b = s.log[s.nlog - 2];
            static const std::map<int, const char*> M = {{1, "time limit reported although it was not exceeded"}, {2, "size filter does not keep exactly the conjectures up to the size"}, {3, "backbone filter does not keep exactly the equivalences"}, {4, "time limit exceeded but not reported"}, {5, "wrong number of rounds"}, {6, "alternating source asks the wrong source"},
                {11, "a backbone is reported twice"}, {12, "a backbone is reported that a simulated assignment refutes (or for a gate that takes no part)"}, {13, "an output that was constant in all simulated assignments is not reported as backbone"}, {14, "an equivalence with less than two literals"}, {15, "a variable in two equivalences"}, {16, "an equivalence with a literal that no other output agreed with"}, {17, "an equivalence that a simulated assignment refutes"}, {18, "one class reported in two parts"}, {19, "outputs that agreed in all simulated assignments are not reported as equivalent"},
                {21, "a conjecture larger than the limit"}, {22, "a variable in two equivalences, or one that is no enabled output"}, {23, "a backbone contradicts another conjecture, or is no enabled output"}, {24, "backbones were to be removed"}, {25, "a constant output is not reported as backbone"}, {26, "equivalent outputs are separated"}, {27, "equivalent outputs are separated"}, {28, "equivalent outputs are not reported"}};
            violate(P, "conjectures-" + std::to_string(code), std::string(M.count(code) ? M.at(code) : "?") + " (" + std::to_string(a) + ", " + std::to_string(b) + "): " + how); return; }
        int last = s.nlog ? s.log[s.nlog - 1] : 0;
        if (last == 77) count("end.out_of_time"); else if (last == 78) count("end.not_judged"); else if (last == 71) count("end.frontend_judged"); else if (last == 7654321) count("end.judged"); else violate(P, "no-result", "random simulation gave no result (exit " + std::to_string(r.code) + "): " + how);
        count("cfg.source_" + std::to_string(src)); if (filt) count("cfg.filter_" + std::to_string(filt)); if (alt) count("cfg.alternating");
    }
};
Scenario* make_rsim() { return new RsimScenario(); }
