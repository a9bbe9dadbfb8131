// Single-threaded command-line runs under interrupts, limits, clock jumps, heap garbage, allocation failure.
#include "scenario.h"
#include <csignal>
#include <cerrno>
#include <cstring>
using namespace sim;

static std::string num(double d) { char b[32]; snprintf(b, sizeof b, "%g", d); return b; }

static void rs_options(std::vector<std::string>& a) {
    if (draw(W, 3) != 2) return;
    if (draw(W, 2)) a.push_back("-rs-only-nonmono-gates");
    if (draw(W, 2)) a.push_back("-rs-max-conj-size=" + std::to_string(range(W, 1, 4)));
    if (draw(W, 2)) a.push_back("-rs-remove-backbone-conj");
    if (draw(W, 2)) { a.push_back("-rs-abort-by-rrat"); if (draw(W, 2)) a.push_back("-rs-rrat=" + num(0.1 * range(W, 0, 9))); }
    if (draw(W, 4) == 3) a.push_back("-rs-time-limit=" + std::to_string(range(W, 0, 2)));
}

void gen_solver_options(std::vector<std::string>& a, bool cli, bool restarts) {
    if (draw(W, cli ? 4 : 2) == 1) a.push_back("-no-pre");
    uint32_t r = draw(W, 3);
    if (r >= 1) { // make clause-database reductions happen early
        a.push_back("-firstReduceDB=" + std::to_string(draw(W, 2) ? 0 : range(W, 1, 60)));
        a.push_back("-incReduceDB=" + std::to_string(draw(W, 2) ? 0 : range(W, 0, 40)));
        if (draw(W, 3)) a.push_back("-inprocessing=" + std::to_string(range(W, 1, 3)));
    }
    bool quick = draw(W, 3) != 0; // restart early and often
    if (quick) { a.push_back("-szLBDQueue=" + std::to_string(draw(W, 3) ? 10 : range(W, 10, 50))); a.push_back("-K=" + num(0.99 - 0.02 * range(W, 0, 10))); if (draw(W, 2)) a.push_back("-persistentLBD=" + std::to_string(range(W, 0, 2))); }
    if (draw(W, 3) == 2) a.push_back("-szTrailQueue=" + std::to_string(range(W, 10, 100)));
    if (!quick && draw(W, 5) == 4) a.push_back("-K=" + num(restarts ? 0.9 : 0.1 * range(W, 1, 9)));
    if (draw(W, 5) == 4) a.push_back("-R=" + num((restarts ? 1.4 : 1.0) + 0.1 * range(W, 1, 30)));
    if (!quick && draw(W, 4) == 3) a.push_back("-persistentLBD=" + std::to_string(range(W, 0, 6)));
    if (draw(W, 4) == 3) a.push_back("-no-recalculate-lbd");
    if (draw(W, 4) == 3) a.push_back("-keep-median-lbd");
    if (draw(W, 4) == 3) a.push_back("-sort-variables");
    if (draw(W, 4) == 3) a.push_back("-var-decay=" + num(0.1 * range(W, 1, 9)));
    if (draw(W, 6) == 5) a.push_back("-max-var-decay=" + num(0.5 + 0.1 * range(W, 0, 4)));
    if (draw(W, 6) == 5) a.push_back("-extra-bump");
    if (draw(W, 6) == 5) a.push_back("-no-elim");
    if (draw(W, 6) == 5) a.push_back("-cl-lim=" + std::to_string(range(W, 0, 8)));
    if (cli) {
        switch (draw(W, 8)) {
            default: break;
            case 3: a.push_back("-use-lrb"); if (draw(W, 2)) a.push_back("-lrb-step-size=" + num(0.1 * range(W, 1, 9))); break;
            case 4: if (draw(W, 12) != 11) break; a.push_back("-use-vsidsc"); if (draw(W, 2)) a.push_back("-no-vsidsc-bump"); if (draw(W, 2)) a.push_back("-vsidsc-lwcc");
                    if (draw(W, 2)) a.push_back("-vsidsc-mult=" + std::to_string(range(W, 1, 50))); if (draw(W, 3) == 2) a.push_back("-vsidsc-dbsize-recalc=1"); break;
            case 5: case 6: {
                a.push_back("-rsil-enable"); a.push_back("-rsil-min-gate-frac=0"); a.push_back("-rs-rounds=2048");
                static const char* modes[] = {"unrestricted", "vanishing", "implicationbudgeted"};
                a.push_back(std::string("-rsil-mode=") + modes[draw(W, 3)]); a.push_back("-advice-size=" + std::to_string(range(W, 2, 3)));
                if (draw(W, 2)) a.push_back("-rsil-van-halflife=" + std::to_string(range(W, 1, 100)));
                if (draw(W, 2)) a.push_back("-rsil-imp-budgets=" + std::to_string(range(W, 1, 100)));
                if (draw(W, 3) == 2) { a.push_back("-rsil-filter-by-input-dependencies=" + std::to_string(range(W, 1, 6))); if (draw(W, 2)) a.push_back("-rsil-filter-only-backbone"); }
                if (draw(W, 6) == 5) a.push_back("-rsil-only-miters");
                rs_options(a);
                break; }
            case 7: {
                a.push_back("-rsar-enable"); a.push_back("-rsar-min-gatecount=" + std::to_string(range(W, 1, 6))); a.push_back("-rs-rounds=2048");
                if (draw(W, 2)) a.push_back("-rsar-max-refinements=" + std::to_string(range(W, 1, 10)));
                if (draw(W, 3) == 2) { std::string c = "-rsar-heur-idc="; for (unsigned i = 0, n = range(W, 1, 4); i < n; i++) c += (i ? " " : "") + std::to_string(range(W, 0, 6)); a.push_back(c); }
                rs_options(a);
                break; }
        }
        if (draw(W, 4) == 3) a.push_back("-static-propagate");
        if (draw(W, 4) == 3) { static const int meth[] = {0, 1, 2, 10, 11}; a.push_back("-gate-recognition-method=" + std::to_string(meth[draw(W, 5)])); }
        if (draw(W, 4) == 3) a.push_back("-gate-tries=" + std::to_string(range(W, 1, 10)));
        if (draw(W, 3) == 2) a.push_back("-verb=" + std::to_string(range(W, 0, 2)));
    }
}

void deep_options(std::vector<std::string>& a) {
    a.erase(std::remove(a.begin(), a.end(), "-no-pre"), a.end()); for (auto& x : a) if (x == "-use-vsidsc") x = "-use-lrb"; // slow
    static const char* o[] = {"-szLBDQueue=10", "-K=0.99", "-inprocessing=1", "-firstReduceDB=0", "-incReduceDB=0"};
    for (auto x : o) if (draw(W, 8) != 7) a.push_back(x);
    if (draw(W, 2)) a.push_back("-persistentLBD=" + std::to_string(range(W, 0, 3)));
}

struct CliScenario : Scenario {
    std::vector<std::string> args; Formula f; int kind; bool deep = false;
    explicit CliScenario(int k) : kind(k) {}
    static void body(void* p) { CliScenario* me = (CliScenario*)p; int rc = call_candy_main(me->args); exit(rc); }

    void execute() override {
        args.clear();
        int hint = 0;
        // size mix: mostly small formulas with exact oracle, some larger ones that restart and reduce
        uint32_t z = draw(W, 10);
        if (kind == 1) hint = z < 3 ? 1 : 2; else hint = z < 5 ? 0 : 1;
        gen_solver_options(args, true, false); if (kind == 1) for (auto& x : args) if (x == "-use-vsidsc") x = "-use-lrb"; // graph centrality alone exceeds the bound
        deep = kind == 0 && z == 9; if (deep) { deep_options(args); f = gen_deep(); count("size.deep"); } else if (kind == 0 && z == 8 && draw(W, 10) == 9) { f = gen_wide(); count("size.wide"); args.clear(); if (draw(W, 3) == 2) args.push_back("-no-pre"); if (draw(W, 4) == 3) args.push_back("-use-lrb"); } else f = gen_formula(hint);
        for (auto& x : args) if (x == "-use-vsidsc" && hint == 0 && kind == 0) { hint = 1; f = gen_formula(1); break; } // its cost is the same for small formulas
        if (f.family != "wide") maybe_sparse(f);
        bool stdin_in = draw(W, 8) == 7;
        bool want_model = draw(W, 8) != 7;
        if (want_model) args.push_back("-model");
        bool minimize = kind == 0 && hint == 0 && draw(W, 10) == 9;
        if (minimize) { args.push_back("-minimize"); if (draw(W, 2)) args.push_back("-minimize-minimal"); if (draw(W, 2)) args.push_back("-minimize-pruned"); }
        // ---- environment and faults
        RunConfig& c = g_cfg;
        static const uint64_t SPEED[] = {100, 10, 1000, 10000, 100000, 1000000};
        c.ns_per_step = SPEED[draw(F, 6)];
        c.heap_seed = draw(F, 4) == 0 ? 0 : 1 + draw(F, 1000000);
        c.heap_reuse = draw(F, 4) != 3;
        c.heap_guard = draw(F, 8) == 7;
        c.max_steps = kind == 1 ? 150ull * 1000 * 1000 : 400ull * 1000 * 1000;
        bool may_interrupt = false; bool alloc_fault = false;
        uint64_t horizon = hint == 0 ? 60000 : hint == 1 ? 4000000 : 40000000;
        auto point = [&]() { uint64_t e = 1 + draw(F, 16); uint64_t h = horizon >> (e - 1); if (h < 64) h = 64; return 1 + (uint64_t)draw(F, (uint32_t)h); };
        uint32_t fk = kind == 1 ? 1 + draw(F, 3) : draw(F, 8);
        int tl = 0, ml = 0; bool sig = false; uint64_t first_sig = 0;
        if (fk == 1 || fk == 4) { // signals
            sig = true; c.nsignals = 1 + (int)(draw(F, 4) == 3);
            for (int i = 0; i < c.nsignals; i++) { c.signals[i].step = point(); c.signals[i].signum = draw(F, 2) ? SIGXCPU : SIGINT; c.signals[i].after_install = true; }
            if (draw(F, 6) == 5) c.signals[0].after_install = false;
            if (c.nsignals == 2 && c.signals[1].step < c.signals[0].step) std::swap(c.signals[0], c.signals[1]);
            first_sig = c.signals[0].step; may_interrupt = true;
        }
        if (fk == 2 || fk == 4) { // wall-clock limit, possibly with clock jumps
            { static const int big[] = {60, 3600, 4294, 4295, 86400, 2147483, 2147484, 2147483647}; tl = draw(F, 4) == 3 ? big[draw(F, 8)] : range(F, 1, 5); } args.push_back("-time-limit=" + std::to_string(tl)); may_interrupt = true;
            c.njumps = (int)draw(F, 3);
            for (int i = 0; i < c.njumps; i++) { c.jumps[i].step = point(); int64_t s = range(F, 1, 20); c.jumps[i].delta_ns = (draw(F, 2) ? -s : s) * 1000000000ll; }
            if (c.njumps == 2 && c.jumps[1].step < c.jumps[0].step) std::swap(c.jumps[0], c.jumps[1]);
        }
        if (fk == 3) { // memory limit
            ml = draw(F, 4) == 3 ? range(F, 10, 60000) : range(F, 10, 200); args.push_back("-memory-limit=" + std::to_string(ml)); may_interrupt = true;
            c.rss_mb_base = range(F, 5, 30); c.rss_step = point(); c.rss_mb_after = (uint64_t)(draw(F, 3) == 2 ? range(F, 1, 100000) : range(F, 1, 400));
        }
        if (fk == 5) { alloc_fault = true; c.alloc_fail_at = 1 + draw(F, hint == 0 ? 3000 : 20000); c.alloc_fail_len = 1 + (draw(F, 2) ? draw(F, 3) : 100000000); }
        if (fk == 6) { c.njumps = 1 + (int)draw(F, 2); for (int i = 0; i < c.njumps; i++) { c.jumps[i].step = point(); c.jumps[i].delta_ns = ((int64_t)range(F, 0, 2000000) - 1000000) * 1000000000ll; } if (c.njumps == 2 && c.jumps[1].step < c.jumps[0].step) std::swap(c.jumps[0], c.jumps[1]);
            // gate detection and simulation budgets read this clock
            if (draw(F, 2)) args.push_back("-gate-timeout=" + std::to_string(range(F, 1, 3))); if (draw(F, 2)) args.push_back("-rs-time-limit=" + std::to_string(range(F, 0, 3))); }
        if (fk == 7 && draw(F, 4) == 3) c.stdout_fail = true;
        std::string text = to_dimacs(f);
        set_file(FIN, text);
        if (!stdin_in) args.push_back(file_path(FIN));
        describe = "candy " + join(args) + (stdin_in ? " < stdin" : "") + " | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()) +
                   " | heap=" + std::to_string(c.heap_seed) + (c.heap_guard ? "g" : "") + " speed=" + std::to_string(c.ns_per_step) + " fault=" + std::to_string(fk);
        for (int i = 0; i < c.nsignals; i++) describe += " signal " + std::to_string(c.signals[i].signum) + "@" + std::to_string(c.signals[i].step);
        if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this);
        if (error) return;
        check(r, hint, want_model, minimize, may_interrupt, alloc_fault, tl, ml, sig, first_sig);
    }

    void check(RunResult& r, int hint, bool want_model, bool minimize, bool may_interrupt, bool alloc_fault, int tl, int ml, bool, uint64_t) {
        Shared& s = *g_sh;
        std::vector<std::string> st = lines_with(r.out, "s ");
        std::string opts = join(args);
        bool killed_by_signal_plan = s.signals_delivered[1] > 0;             // default action before the handlers were installed
        bool quit = r.out.find("*** INTERRUPTED ***") != std::string::npos;  // second-phase handler: immediate quit
        nontrivial = s.signals_delivered[0] || s.f_alloc || s.f_clockjump || s.f_rss || tl || hint > 0 || s.cov_count > 1200;
        int verdict = -1;
        if (st.size() >= 1) verdict = st[0] == "s SATISFIABLE" ? 10 : st[0] == "s UNSATISFIABLE" ? 20 : st[0] == "s INDETERMINATE" ? 0 : -2;
        count(verdict == 10 ? "verdict.sat" : verdict == 20 ? "verdict.unsat" : verdict == 0 ? "verdict.indeterminate" : "verdict.none");
        count("size." + std::to_string(hint));
        for (auto& a : args) if (a == "-use-lrb" || a == "-use-vsidsc" || a == "-rsil-enable" || a == "-rsar-enable" || a == "-static-propagate" || a == "-no-pre" || a.compare(0, 14, "-inprocessing=") == 0) count("cfg." + a.substr(1, 12));
        if (r.out.find("c Inprocessing ...") != std::string::npos) count("probe.inprocessing");
        // ---- C03: it ends, and ends properly
        if (kind == 1 && !killed_by_signal_plan) { // the interrupt or limit was due: at most this much further work
            const uint64_t slack = 20000000; uint64_t due = ~0ull; const char* what = "";
            if (s.first_signal_step && s.signals_delivered[0]) { due = s.first_signal_step; what = "signal"; }
            if (ml && g_cfg.rss_mb_after > (uint64_t)ml + 1 && g_cfg.rss_step < due) { due = g_cfg.rss_step; what = "memory-limit"; }
            if (tl && g_cfg.njumps == 0) { uint64_t d = ((uint64_t)tl + 3) * 1000000000ull / g_cfg.ns_per_step; if (d < due) { due = d; what = "time-limit"; } }
            if (due != ~0ull && s.steps > due + slack) violate("C03", std::string("no-termination-after-") + what, std::string(what) + " due at step " + std::to_string(due) + ", but the run goes on until step " + std::to_string(s.steps) + ": candy " + opts);
        }
        if (s.stepcap) {
            if (hint < 2 && !deep) violate("C03", "no-termination", "run did not end within " + std::to_string(g_cfg.max_steps) + " steps: candy " + opts);
            count("end.budget");
            return;
        }
        if (killed_by_signal_plan) return;
        if (r.sig && !alloc_fault) {
            std::string d = "process died with signal " + std::to_string(r.sig) + ": candy " + opts;
            violate("C01", "crash-" + std::to_string(r.sig), d); violate("C02", "crash-" + std::to_string(r.sig), d); violate("C03", "crash-" + std::to_string(r.sig), d);
            return;
        }
        if (s.heap_corrupt && !alloc_fault) { violate("C03", "heap-corruption", "write past the end of a heap block: candy " + opts); }
        if (s.deadlock) { violate("C03", "deadlock", "candy " + opts); return; }
        if (r.sig) { // died after an injected allocation failure: whatever was printed before must still be right
            count("end.died_after_alloc_failure");
        }
        if (g_cfg.stdout_fail) { // only the exit code is observable
            int want = decide(f);
            if (r.exited && (r.code == 10 || r.code == 20) && want && r.code != want) violate("C01", "wrong-exit-code", "exit code " + std::to_string(r.code) + " but the formula is " + std::to_string(want));
            return;
        }
        // ---- C01: verdict correct, one status line, exit code consistent
        int truth = 0;
        if (verdict == 10 || verdict == 20 || !may_interrupt) truth = decide(f);
        if (st.size() > 1) violate("C01", "several-status-lines", clip(r.out));
        if (verdict == -2) violate("C01", "unknown-status-line", st[0]);
        if (verdict == 10 && truth == 20) violate("C01", "wrong-sat", "reports SATISFIABLE for an unsatisfiable formula: candy " + opts);
        if (verdict == 20 && truth == 10) violate("C01", "wrong-unsat", "reports UNSATISFIABLE for a satisfiable formula: candy " + opts);
        if (r.exited && verdict >= 0 && !quit && !alloc_fault) {
            if (r.code != verdict) violate("C01", "exit-code-mismatch", st[0] + " but exit code " + std::to_string(r.code));
        }
        if (r.exited && (r.code == 10 || r.code == 20) && verdict != r.code && !alloc_fault) violate("C01", "exit-code-without-status", "exit code " + std::to_string(r.code) + " status " + (st.empty() ? "none" : st[0]));
        // ---- C03: an answer is given unless something interrupted
        if (r.exited && !quit && !alloc_fault) {
            if (verdict == -1) violate("C03", "no-status-line", "exit code " + std::to_string(r.code) + " output: " + clip(r.out));
            if (verdict == 0) {
                bool ok = s.signals_delivered[0] > 0;
                if (tl) { uint64_t v = s.vtime_ns; for (int i = 0; i < g_cfg.njumps; i++) if (g_cfg.jumps[i].delta_ns > 0) v += (uint64_t)g_cfg.jumps[i].delta_ns; if (v > (uint64_t)tl * 1000000000ull) ok = true; }
                if (ml && s.f_rss && (int)g_cfg.rss_mb_after > ml) ok = true;
                if (ml && (int)g_cfg.rss_mb_base > ml) ok = true;
                if (!ok) violate("C03", "indeterminate-without-cause", "gave up without interrupt or exceeded limit: candy " + opts);
            }
        }
        // ---- C02: model complete and satisfying
        if (verdict == 10 && want_model && r.exited && !quit && !alloc_fault) {
            std::vector<std::string> vl = lines_with(r.out, minimize ? "c Minimized-Model: " : "v");
            int used = 0; // variables of the non-tautological and tautological clauses alike
            for (auto& c : f.clauses) for (int l : c) used = std::max(used, std::abs(l));
            if (vl.size() != 1) { violate("C02", "no-model-line", "SATISFIABLE with " + std::to_string(vl.size()) + " model lines: candy " + opts); return; }
            std::vector<signed char> m((size_t)used + 1, 0); const char* p = vl[0].c_str() + (minimize ? 19 : 1); bool zero = false; int nl = 0;
            for (;;) {
                char* q; long v = strtol(p, &q, 10); if (q == p) break; p = q;
                if (v == 0) { zero = true; break; }
                if (std::labs(v) > used) { violate("C02", "model-literal-out-of-range", vl[0].substr(0, 200)); return; }
                int av = (int)std::labs(v); if (m[av] && m[av] != (v > 0 ? 1 : -1)) { violate("C02", "model-contradictory", vl[0].substr(0, 200)); return; }
                m[av] = v > 0 ? 1 : -1; nl++;
            }
            while (*p == ' ') p++;
            if (*p) { violate("C02", "model-line-malformed", clip(vl[0])); return; }
            if (!minimize) {
                if (!zero) violate("C02", "model-line-unterminated", clip(vl[0]));
                for (int v = 1; v <= used; v++) if (!m[v]) { violate("C02", "model-incomplete", "variable " + std::to_string(v) + " has no value: candy " + opts + " " + clip(vl[0], 200)); break; }
            }
            count(minimize ? "probe.minimized_model" : "probe.model");
            bool pruned = false; for (auto& a : args) if (a == "-minimize-pruned") pruned = true;
            if (minimize && pruned) { // clauses were left out on purpose: the printed literals must extend to a model
                Formula g = f; for (int v = 1; v <= used; v++) if (m[v]) g.clauses.push_back(std::vector<int>(1, m[v] > 0 ? v : -v));
                if (decide(g) == 20) violate("C02", "pruned-model-contradicts", "the minimised model cannot be extended to a model: candy " + opts + " " + clip(vl[0], 200));
            } else if (!satisfies(f.clauses, m)) violate("C02", minimize ? "minimized-model-falsifies" : "model-falsifies", "printed model does not satisfy the formula: candy " + opts + " " + clip(vl[0], 200));
        }
    }
};
Scenario* make_cli() { return new CliScenario(0); }
Scenario* make_cli_limits() { return new CliScenario(1); }
