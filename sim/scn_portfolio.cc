// The command-line program with several solver threads: the scheduler decides every interleaving, also between
// two accesses to shared variables; interrupts, limits and clock jumps are injected.
#include "scenario.h"
#include <csignal>
#include <cstring>
using namespace sim;

struct PortfolioScenario : Scenario {
    std::vector<std::string> args; Formula f; bool deep = false;
    static void body(void* p) { PortfolioScenario* me = (PortfolioScenario*)p; int rc = call_candy_main(me->args); exit(rc); }
    void execute() override {
        args.clear();
        int hint = draw(W, 5) >= 3 ? 1 : 0;
        deep = hint == 1 && draw(W, 4) == 3; f = deep ? gen_deep() : gen_formula(hint);
        if (f.family != "wide") maybe_sparse(f);
        int nt = draw(W, 12) == 11 ? range(W, 5, 16) : 2 + (int)draw(W, 4) % 3;
        args.push_back("-threads=" + std::to_string(nt));
        static const int DEL[] = {10, 20, 50, 200, 500, 1000};
        args.push_back("-thread-initialization-delay=" + std::to_string(DEL[draw(F, 6)]));
        args.push_back("-rs-rounds=2048");
        if (draw(W, 3)) args.push_back("-model");
        if (draw(W, 3) == 2) { args.push_back("-firstReduceDB=" + std::to_string(range(W, 0, 20))); args.push_back("-incReduceDB=" + std::to_string(range(W, 0, 20))); }
        if (draw(W, 2)) args.push_back("-inprocessing=" + std::to_string(range(W, 1, 2)));
        if (draw(W, 2)) args.push_back("-szLBDQueue=10");
        if (draw(W, 4) == 3) args.push_back("-static-propagate");
        if (draw(W, 4) == 3) args.push_back("-verb=" + std::to_string(draw(W, 2) * 2));
        if (draw(W, 6) == 5) args.push_back("-rsil-min-gate-frac=0");
        if (deep) { deep_options(args); count("size.deep"); }
        bool tm = draw(W, 12) == 11; if (tm) args.push_back("-test-model");
        bool minimize = draw(W, 16) == 15; if (minimize) args.push_back("-minimize");
        RunConfig& c = g_cfg;
        static const uint64_t SPEED[] = {100, 1000, 10000, 10000, 100000, 100000, 1000000, 1000000};
        c.ns_per_step = SPEED[draw(F, 8)];
        c.heap_seed = draw(F, 4) == 0 ? 0 : 1 + draw(F, 1000000);
        c.heap_guard = draw(F, 12) == 11;
        c.max_steps = hint ? 600ull * 1000 * 1000 : 200ull * 1000 * 1000;
        c.fair_after = 30ull * 1000 * 1000;
        c.sched_mode = draw(F, 3) ? 2 : 1; static const uint64_t SL[] = {400000, 400000, 30000, 3000}; c.slice_max = SL[draw(F, 4)];
        uint64_t horizon = hint == 0 ? 400000 : 4000000;
        auto point = [&]() { uint64_t e = 1 + draw(F, 14); uint64_t h = horizon >> (e - 1); if (h < 64) h = 64; return 1 + (uint64_t)draw(F, (uint32_t)h); };
        uint32_t fk = draw(F, 6); int tl = 0, ml = 0;
        if (fk == 1 || fk == 4) {
            c.nsignals = 1 + (int)(draw(F, 4) == 3);
            for (int i = 0; i < c.nsignals; i++) { c.signals[i].step = point(); c.signals[i].signum = draw(F, 2) ? SIGXCPU : SIGINT; c.signals[i].after_install = true; }
            if (draw(F, 10) == 9) c.signals[0].after_install = false;
            if (c.nsignals == 2 && c.signals[1].step < c.signals[0].step) std::swap(c.signals[0], c.signals[1]);
        }
        if (fk == 2 || fk == 4) {
            { static const int big[] = {60, 3600, 4294, 4295, 86400, 2147483, 2147484, 2147483647}; tl = draw(F, 4) == 3 ? big[draw(F, 8)] : range(F, 1, 3); } args.push_back("-time-limit=" + std::to_string(tl));
            c.njumps = (int)draw(F, 2); for (int i = 0; i < c.njumps; i++) { c.jumps[i].step = point(); int64_t s = range(F, 1, 20); c.jumps[i].delta_ns = (draw(F, 2) ? -s : s) * 1000000000ll; }
        }
        if (fk == 3) { ml = draw(F, 4) == 3 ? range(F, 10, 60000) : range(F, 10, 200); args.push_back("-memory-limit=" + std::to_string(ml)); c.rss_mb_base = (uint64_t)range(F, 5, 30); c.rss_step = point(); c.rss_mb_after = (uint64_t)(draw(F, 3) == 2 ? range(F, 1, 100000) : range(F, 1, 400)); }
        std::string text = to_dimacs(f); set_file(FIN, text); args.push_back(file_path(FIN));
        describe = "candy " + join(args) + " | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()) + " | heap=" + std::to_string(c.heap_seed) + " speed=" + std::to_string(c.ns_per_step) + " fault=" + std::to_string(fk);
        for (int i = 0; i < c.nsignals; i++) describe += " signal " + std::to_string(c.signals[i].signum) + "@" + std::to_string(c.signals[i].step);
        if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this);
        if (error) return;
        check(r, tm, minimize, tl, ml);
    }
    void check(RunResult& r, bool tm, bool minimize, int tl, int ml) {
        Shared& s = *g_sh; std::string opts = join(args);
        nontrivial = s.switches > 4;
        std::vector<std::string> st = lines_with(r.out, "s ");
        bool quit = r.out.find("*** INTERRUPTED ***") != std::string::npos;
        if (s.stepcap && deep) { count("end.budget"); return; }
        if (s.stepcap) { violate("C06", "no-termination", "the run did not end within " + std::to_string(s.steps) + " steps: candy " + opts); count("end.budget"); return; }
        if (s.signals_delivered[1]) return;
        if (r.sig) { std::string d = "process died with signal " + std::to_string(r.sig) + ": candy " + opts; for (const char* p : {"C04", "C05", "C06"}) violate(p, "crash-" + std::to_string(r.sig), d); return; }
        if (s.heap_corrupt) violate("C06", "heap-corruption", "heap block overrun or double free: candy " + opts);
        if (s.deadlock) { violate("C06", "deadlock", "candy " + opts); return; }
        int verdict = -1;
        if (st.size() >= 1) verdict = st[0] == "s SATISFIABLE" ? 10 : st[0] == "s UNSATISFIABLE" ? 20 : st[0] == "s INDETERMINATE" ? 0 : -2;
        count(verdict == 10 ? "verdict.sat" : verdict == 20 ? "verdict.unsat" : verdict == 0 ? "verdict.indeterminate" : "verdict.none");
        if (r.out.find("c Inprocessing ...") != std::string::npos) count("probe.inprocessing");
        if (verdict == -1 && r.exited && !quit) violate("C04", "no-status-line", "exit code " + std::to_string(r.code) + " output: " + clip(r.out, 200) + " ... " + (r.out.size() > 200 ? r.out.substr(r.out.size() - 200) : ""));
        if (st.size() > 1) violate("C04", "several-status-lines", clip(r.out));
        if (verdict == -2) violate("C04", "unknown-status-line", st[0]);
        int truth = 0; if (verdict == 10 || verdict == 20) truth = decide(f);
        if (verdict == 10 && truth == 20) violate("C04", "wrong-sat", "reports SATISFIABLE for an unsatisfiable formula: candy " + opts);
        if (verdict == 20 && truth == 10) violate("C04", "wrong-unsat", "reports UNSATISFIABLE for a satisfiable formula: candy " + opts);
        bool tested = tm && verdict == 10;
        if (r.exited && verdict >= 0 && !quit) {
            if (tested) {
                count("probe.test_model");
                if (r.out.find("c Result verified by model checker") == std::string::npos || r.code != 0) violate("C05", "model-not-verified", "exit code " + std::to_string(r.code));
            } else if (r.code != verdict) violate("C04", "exit-code-mismatch", st[0] + " but exit code " + std::to_string(r.code));
        }
        if (r.exited && (r.code == 10 || r.code == 20) && verdict != r.code && verdict >= 0) violate("C04", "exit-code-mismatch", st[0] + " but exit code " + std::to_string(r.code));
        if (verdict == 0 && !quit) {
            bool ok = s.signals_delivered[0] > 0;
            if (tl) { uint64_t v = s.vtime_ns; for (int i = 0; i < g_cfg.njumps; i++) if (g_cfg.jumps[i].delta_ns > 0) v += (uint64_t)g_cfg.jumps[i].delta_ns; if (v > (uint64_t)tl * 1000000000ull) ok = true; }
            if (ml && ((s.f_rss && (int)g_cfg.rss_mb_after > ml) || (int)g_cfg.rss_mb_base > ml)) ok = true;
            if (!ok) violate("C06", "indeterminate-without-cause", "gave up without interrupt or exceeded limit: candy " + opts);
        }
        bool want_model = false; for (auto& a : args) if (a == "-model") want_model = true;
        if (verdict == 10 && want_model && !minimize && !quit && r.exited) {
            std::vector<std::string> vl = lines_with(r.out, "v");
            int used = f.max_used();
            if (vl.size() != 1) { violate("C05", "no-model-line", "SATISFIABLE with " + std::to_string(vl.size()) + " model lines: candy " + opts); return; }
            std::vector<signed char> m((size_t)used + 1, 0); const char* p = vl[0].c_str() + 1; bool zero = false;
            for (;;) {
                char* q; long v = strtol(p, &q, 10); if (q == p) break; p = q;
                if (v == 0) { zero = true; break; }
                if (std::labs(v) > used) { violate("C05", "model-literal-out-of-range", clip(vl[0], 200)); return; }
                m[(size_t)std::labs(v)] = v > 0 ? 1 : -1;
            }
            while (*p == ' ') p++;
            if (*p || !zero) { violate("C05", "model-line-malformed", clip(vl[0])); return; }
            for (int v = 1; v <= used; v++) if (!m[(size_t)v]) { violate("C05", "model-incomplete", "variable " + std::to_string(v) + " has no value: " + clip(vl[0], 200)); return; }
            count("probe.model");
            if (!satisfies(f.clauses, m)) violate("C05", "model-falsifies", "printed model does not satisfy the formula: candy " + opts + " " + clip(vl[0], 200));
        }
    }
};
Scenario* make_portfolio() { return new PortfolioScenario(); }
