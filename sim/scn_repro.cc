// The same command line twice in two different environments (heap layout and garbage, clock, read sizes, memory statistics).
// Oracle: both runs print the same and write the same proof, apart from times and memory.
#include "scenario.h"
#include <cstring>
using namespace sim;
Formula gen_gate_formula(int maxv);
// many learnt clauses compete in each reduction, so that ties have to be broken
static void rare_reductions(std::vector<std::string>& a) {
    for (auto& x : a) if (x == "-use-vsidsc") x = "-use-lrb"; // slow
    if (draw(W, 2)) a.push_back("-szLBDQueue=10"); if (draw(W, 2)) a.push_back("-K=0.95");
    a.push_back("-firstReduceDB=" + std::to_string(range(W, 10, 120))); a.push_back("-incReduceDB=" + std::to_string(range(W, 0, 30)));
    a.push_back("-persistentLBD=" + std::to_string(range(W, 0, 2)));
}
struct ReproScenario : Scenario {
    std::vector<std::string> args; Formula f;
    static void body(void* p) { int rc = call_candy_main(((ReproScenario*)p)->args); exit(rc); }
    static std::vector<std::string> norm(const std::string& s) {
        std::vector<std::string> r; size_t i = 0;
        while (i < s.size()) {
            size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); std::string l = s.substr(i, e - i); i = e + 1;
            if (l.find("time") != std::string::npos || l.find("Runtime") != std::string::npos || l.find("memory") != std::string::npos || l.compare(0, 4, "c | ") == 0) continue;
            if (l.compare(0, 2, "c ") == 0 && l.size() > 3 && isdigit(l[2])) { size_t k = 2; while (k < l.size() && isdigit(l[k])) k++; if (k < l.size() && l[k] == ':') l = "c T" + l.substr(k); } // thread number
            r.push_back(l);
        }
        return r;
    }
    void env(int kind) {
        g_cfg = RunConfig(); RunConfig& c = g_cfg; c.max_steps = 300ull * 1000 * 1000; if (!kind) return;
        static const uint64_t SPEED[] = {100, 10, 10000, 1000000, 100000000}; c.ns_per_step = SPEED[draw(F, 5)]; c.heap_seed = 1 + draw(F, 1000000); // other addresses and contents, same order of blocks
        
        if (draw(F, 2)) { c.njumps = 1; c.jumps[0].step = 1 + draw(F, 400000u >> draw(F, 10)); c.jumps[0].delta_ns = ((int64_t)range(F, 0, 2000000) - 1000000) * 1000000000ll; }
        if (draw(F, 2)) { c.read_chunk = 1u << draw(F, 13); c.read_chunk_random = draw(F, 2); }
        if (draw(F, 2)) { c.rss_mb_base = range(F, 1, 100); c.rss_step = 1 + draw(F, 100000); c.rss_mb_after = range(F, 1, 100000); }
        if (draw(F, 3) == 2) c.read_eintr_at = 1 + draw(F, 3);
    }
    void execute() override {
        args.clear(); count("probe.cases"); const char* P = "C19";
        gen_solver_options(args, true, false); // a limited run may depend on the clock
        for (size_t i = 0; i < args.size(); ) if (args[i].compare(0, 15, "-rs-time-limit=") == 0) args.erase(args.begin() + i); else i++;
        uint32_t z = draw(W, 10); f = z < 3 ? gen_gate_formula(20) : z == 9 ? (draw(W, 3) == 2 ? deep_options(args) : rare_reductions(args), gen_deep()) : gen_formula(z < 8 ? 0 : 1);
        if (f.family != "wide") maybe_sparse(f);
        if (draw(W, 8) != 7) args.push_back("-model");
        bool verb = false; for (auto& a : args) if (a.compare(0, 5, "-verb") == 0) verb = true; if (!verb) args.push_back("-verb=" + std::to_string(draw(W, 4) == 3 ? 2 : 1));
        bool mini = f.max_used() <= 20 && draw(W, 6) == 5; if (mini) { args.push_back("-minimize"); if (draw(W, 2)) args.push_back("-minimize-minimal"); if (draw(W, 2)) args.push_back("-minimize-pruned"); if (draw(W, 2)) args.push_back("-minimize-project"); }
        if (draw(W, 12) == 11) args.push_back("-gate-stats");
        if (draw(W, 2)) args.push_back("-certified-output=" + file_path(FPROOF));
        bool viastdin = draw(W, 8) == 7; if (!viastdin) args.push_back(file_path(FIN));
        std::string text = to_dimacs(f); set_file(FIN, text);
        describe = "candy " + join(args) + " twice | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()); if (text.size() < 1500) describe += "\n" + text;
        env(0); RunResult a = go(body, this); if (error) return; if (g_sh->stepcap || a.sig) { count("end.budget"); return; }
        env(1); RunResult b = go(body, this); if (error) return; if (g_sh->stepcap) { count("end.budget"); return; }
        std::string o = join(args); nontrivial = true; if (a.out.find("c Inprocessing ...") != std::string::npos) count("probe.inprocessing");
        if (b.sig) { violate(P, "crash-" + std::to_string(b.sig), "died with signal " + std::to_string(b.sig) + " in another environment only: candy " + o); return; }
        if (a.code != b.code) { violate(P, "answer-differs", "exit code " + std::to_string(a.code) + " and " + std::to_string(b.code) + " for the same input: candy " + o); return; }
        std::vector<std::string> x = norm(a.out), y = norm(b.out);
        for (size_t i = 0; i < x.size() || i < y.size(); i++) { std::string p = i < x.size() ? x[i] : "(end)", q = i < y.size() ? y[i] : "(end)"; if (p != q) { violate(P, "output-differs", "prints '" + clip(p, 120) + "' in one environment and '" + clip(q, 120) + "' in another: candy " + o); return; } }
        if (a.proof != b.proof) violate(P, "proof-differs", "writes different proofs in different environments: candy " + o);
        count(a.code == 10 ? "probe.sat_twice" : a.code == 20 ? "probe.unsat_twice" : "probe.other_twice"); if (!a.proof.empty()) count("probe.proof_twice"); if (mini) count("probe.minimised_twice");
    }
};
Scenario* make_repro() { return new ReproScenario(); }
