// Proof logging while the disk misbehaves and the process is interrupted or killed.
#include "scenario.h"
#include <csignal>
#include <cerrno>
#include <cstring>
#include <algorithm>
using namespace sim;

struct ProofScenario : Scenario {
    std::vector<std::string> args; Formula f;
    static void body(void* p) { ProofScenario* me = (ProofScenario*)p; int rc = call_candy_main(me->args); exit(rc); }
    void execute() override {
        args.clear();
        int hint = draw(W, 3) == 2 ? 1 : 0;
        gen_solver_options(args, true, false);
        for (auto& a : args) if (a == "-use-vsidsc") a = "-use-lrb";   // much slower, same proof code
        if (hint == 1 && draw(W, 4) == 3) { deep_options(args); f = gen_deep(); count("size.deep"); } else f = gen_formula(hint);
        if (f.family != "wide") maybe_sparse(f);
        bool tp = draw(W, 4) == 3; if (tp) args.push_back("-test-proof");
        if (draw(W, 3) == 2) args.push_back("-model");
        if (draw(W, 8) == 7) args.push_back("-minimize");
        args.push_back("-certified-output=" + file_path(FPROOF));
        RunConfig& c = g_cfg;
        c.heap_seed = draw(F, 4) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 10) == 9;
        static const uint64_t SPEED[] = {100, 1000, 10000, 100000}; c.ns_per_step = SPEED[draw(F, 4)];
        c.max_steps = 400ull * 1000 * 1000;
        uint64_t horizon = hint == 0 ? 60000 : 4000000;
        auto point = [&]() { uint64_t e = 1 + draw(F, 16); uint64_t h = horizon >> (e - 1); if (h < 64) h = 64; return 1 + (uint64_t)draw(F, (uint32_t)h); };
        auto wpoint = [&]() { uint64_t e = 1 + draw(F, 10); return 1 + (uint64_t)draw(F, (uint32_t)(1u << e)); };
        uint32_t fk = draw(F, 9); bool sig = false;
        if (fk == 1) { c.crash_at_write = wpoint(); }
        if (fk == 2) { c.crash_at_step = 3000 + point(); }
        if (fk == 3) { c.write_fail_at = wpoint(); static const int E[] = {ENOSPC, EIO, EDQUOT}; c.write_errno = E[draw(F, 3)]; c.write_fail_sticky = true; }
        if (fk == 4) { c.write_fail_at = wpoint(); static const int E[] = {ENOSPC, EIO}; c.write_errno = E[draw(F, 2)]; c.write_fail_sticky = false; }
        if (fk == 5 || ((fk == 3 || fk == 4) && draw(F, 2))) c.write_short = true;
        if (fk == 6) { sig = true; c.nsignals = 1 + (int)(draw(F, 3) == 2); for (int i = 0; i < c.nsignals; i++) { c.signals[i].step = point(); c.signals[i].signum = SIGINT; c.signals[i].after_install = true; } if (c.nsignals == 2 && c.signals[1].step < c.signals[0].step) std::swap(c.signals[0], c.signals[1]); }
        if (fk == 7) c.proof_open_errno = draw(F, 2) ? EACCES : ENOSPC;
        std::string text = to_dimacs(f); set_file(FIN, text); args.push_back(file_path(FIN));
        describe = "candy " + join(args) + " | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()) + " | heap=" + std::to_string(c.heap_seed) + " fault=" + std::to_string(fk);
        if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this);
        if (error) return;
        check(r, tp, fk, sig);
    }
    void check(RunResult& r, bool tp, uint32_t fk, bool) {
        Shared& s = *g_sh; std::string opts = join(args); bool c_short = g_cfg.write_short;
        if (s.stepcap) { count("end.budget"); return; }
        bool quit = r.out.find("*** INTERRUPTED ***") != std::string::npos;
        bool killed = s.f_crash || s.signals_delivered[1] || quit;
        if (r.sig && !s.signals_delivered[1]) { violate("C12", "crash-" + std::to_string(r.sig), "process died with signal " + std::to_string(r.sig) + ": candy " + opts); violate("C13", "crash-" + std::to_string(r.sig), "process died with signal " + std::to_string(r.sig) + ": candy " + opts); return; }
        if (s.heap_corrupt) violate("C13", "heap-corruption", "heap block overrun: candy " + opts);
        std::vector<std::string> st = lines_with(r.out, "s ");
        int verdict = st.empty() ? -1 : st[0] == "s SATISFIABLE" ? 10 : st[0] == "s UNSATISFIABLE" ? 20 : 0;
        count(verdict == 10 ? "verdict.sat" : verdict == 20 ? "verdict.unsat" : verdict == 0 ? "verdict.indeterminate" : "verdict.none");
        if (r.out.find("c Inprocessing ...") != std::string::npos) count("probe.inprocessing");
        bool lost = s.f_write_err > 0 || s.f_open_err > 0;            // the disk refused data: an incomplete proof is allowed, a wrong one is not
        nontrivial = s.f_write_err || s.f_write_short || s.f_crash || s.signals_delivered[0] || r.proof.size() > 40;
        DratResult d = drat_check(f, r.proof, killed || lost);
        count("probe.lemmas", (uint64_t)d.lemmas); count("probe.deletions", (uint64_t)d.deletions); if (d.torn) count("probe.torn_tail"); if (!r.proof.empty()) count("probe.nonempty_proof");
        const char* p = killed || lost || fk == 5 ? "C13" : "C12";
        // after a partial write and an error the stream library writes its buffer once more when it is closed: the last line may be damaged
        if (!d.ok && s.f_write_err && c_short && d.bad_line >= std::count(r.proof.begin(), r.proof.end(), '\n')) { count("probe.damaged_last_line"); d.ok = true; }
        if (!d.ok) violate(p, "invalid-proof-step", "line " + std::to_string(d.bad_line) + ": " + d.why + ": candy " + opts);
        if (verdict == 20 && !lost && !killed && d.ok) {
            count("probe.refutation");
            if (!d.refuted) violate(p, "proof-incomplete", "UNSATISFIABLE but the proof does not derive the empty clause: candy " + opts);
            if (tp) { count("probe.test_proof"); if (r.out.find("c Result verified by proof checker") == std::string::npos || r.code != 0) violate("C14", "valid-proof-rejected", "the built-in checker rejects a valid proof: candy " + opts); }
        }
        // a fault on the proof file must not change the answer
        if ((verdict == 10 || verdict == 20) && decide(f) + verdict == 30) violate("C13", "wrong-answer", st[0] + " is wrong: candy " + opts);
        if (r.exited && !killed && verdict == -1) violate("C13", "no-status-line", "exit code " + std::to_string(r.code) + ": candy " + opts);
    }
};
Scenario* make_proof() { return new ProofScenario(); }
