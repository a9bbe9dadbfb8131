// The converter from formulas to and-inverter graphs (cnf2aig), with read faults, heap garbage and clock jumps.
// Oracle: evaluation of the printed graph; exact projection of the models for small formulas, satisfiability for larger ones.
#include "scenario.h"
#include <cerrno>
#include <cstring>
using namespace sim;
Formula gen_gate_formula(int maxv);
extern "C" int cnf2aig_main(int, char**);
struct AigScenario : Scenario {
    Formula f;
    static void body(void*) { static char name[] = "cnf2aig"; std::string p = file_path(FIN); char* av[3] = {name, strdup(p.c_str()), nullptr}; int rc = cnf2aig_main(2, av); exit(rc); }
    void execute() override {
        count("probe.cases"); const char* P = "C20";
        uint32_t z = draw(W, 10); f = z < 6 ? gen_gate_formula(14) : z < 8 ? gen_small() : z == 8 ? gen_gate_formula(60) : gen_formula(1); if (f.clauses.size() > 400) f.clauses.resize(400);
        f.planted.clear(); if (draw(W, 30) == 29) f.clauses.clear();
        RunConfig& c = g_cfg; c.ns_per_step = draw(F, 2) ? 100 : 1000000; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 5) == 4; c.heap_reuse = draw(F, 4) != 3; c.max_steps = 300ull * 1000 * 1000;
        if (draw(F, 3) == 2) { c.read_chunk = 1u << draw(F, 13); c.read_chunk_random = draw(F, 2); }
        if (draw(F, 4) == 3) { c.njumps = 1; c.jumps[0].step = 1 + draw(F, 60000u >> draw(F, 8)); c.jumps[0].delta_ns = ((int64_t)range(F, 0, 2000) - 1000) * 1000000000ll; }
        bool rf = draw(F, 10) == 9; if (rf) { if (draw(F, 3) == 2) c.open_errno = EACCES; else { c.read_fail_at = 1 + draw(F, 3); c.read_errno = EIO; c.read_fail_sticky = true; } }
        bool alloc = draw(F, 12) == 11; if (alloc) { c.alloc_fail_at = 1 + draw(F, 3000); c.alloc_fail_len = 1; }
        std::string text = to_dimacs(f); set_file(FIN, text);
        describe = "cnf2aig | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()) + (rf ? " read fault" : "") + (alloc ? " alloc" : ""); if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this); if (error) return;
        Shared& s = *g_sh; nontrivial = true;
        if (s.stepcap) { violate(P, "endless", "the converter did not end"); return; }
        if (s.heap_corrupt && !alloc) violate(P, "heap-corruption", "heap block overrun");
        bool disturbed = (alloc && s.f_alloc) || s.f_read_err || s.f_open_err;
        if (r.sig && !disturbed) { violate(P, "crash-" + std::to_string(r.sig), "the converter died with signal " + std::to_string(r.sig)); return; }
        size_t at = r.out.find("aag "); if (at != std::string::npos && at > 0 && r.out[at - 1] != '\n') at = std::string::npos;
        if (r.sig || (disturbed && at == std::string::npos)) { count("end.disturbed"); if (at == std::string::npos) return; if (s.f_read_err || s.f_open_err) violate(P, "circuit-after-read-error", "a circuit is printed although the input could not be read"); return; }
        if (at == std::string::npos) { violate(P, "no-circuit", "no circuit is printed, exit code " + std::to_string(r.code)); return; }
        // ---- parse
        std::vector<long> num; { const char* p = r.out.c_str() + at + 4; char* e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; num.push_back(v); p = e; } while (*p == '\n' || *p == ' ') p++; if (*p) { violate(P, "malformed", "the circuit ends with '" + clip(p, 60) + "'"); return; } }
        if (num.size() < 5) { violate(P, "malformed", "no header"); return; }
        long Mx = num[0], I = num[1], L = num[2], O = num[3], A = num[4];
        if (L != 0 || O != 1 || I < 0 || A < 0 || (long)num.size() != 5 + I + 1 + 3 * A || I + A > Mx || Mx > 10000000) { violate(P, "malformed", "header does not fit the circuit: aag " + std::to_string(Mx) + " " + std::to_string(I) + " " + std::to_string(L) + " " + std::to_string(O) + " " + std::to_string(A)); return; }
        int top = std::max(1, f.max_used()); std::vector<int> kind((size_t)Mx + 1, 0); std::vector<long> lft((size_t)Mx + 1, 0), rgt((size_t)Mx + 1, 0); std::vector<long> in, order;
        for (long i = 0; i < I; i++) { long l = num[5 + i]; if (l < 2 || (l & 1) || l / 2 > Mx || kind[l / 2]) { violate(P, "malformed", "input literal " + std::to_string(l)); return; } if (l / 2 > top) { violate(P, "foreign-input", "input " + std::to_string(l / 2) + " is no variable of the formula"); return; } kind[l / 2] = 1; in.push_back(l / 2); }
        long out = num[5 + I]; if (out < 0 || out / 2 > Mx) { violate(P, "malformed", "output literal"); return; }
        for (long i = 0; i < A; i++) { long o = num[6 + I + 3 * i], a = num[7 + I + 3 * i], b = num[8 + I + 3 * i]; if (o < 2 || (o & 1) || o / 2 > Mx || kind[o / 2] || a < 0 || b < 0 || a / 2 > Mx || b / 2 > Mx) { violate(P, "malformed", "gate " + std::to_string(o) + " " + std::to_string(a) + " " + std::to_string(b)); return; } kind[o / 2] = 2; lft[o / 2] = a; rgt[o / 2] = b; }
        std::vector<int> st((size_t)Mx + 1, 0); std::vector<long> stack; // topological order of what the output needs
        if (out / 2) stack.push_back(out / 2);
        while (!stack.empty()) { long v = stack.back(); if (kind[v] == 0) { violate(P, "undefined", "the circuit uses " + std::to_string(v) + " without definition"); return; } if (kind[v] == 1) { st[v] = 2; stack.pop_back(); continue; }
            if (st[v] == 0) { st[v] = 1; for (long w : {lft[v] / 2, rgt[v] / 2}) if (w && st[w] != 2) { if (st[w] == 1) { violate(P, "cyclic", "the circuit is cyclic"); return; } stack.push_back(w); } } else { if (st[v] == 1) order.push_back(v); st[v] = 2; stack.pop_back(); } }
        count("probe.circuits"); count("probe.and_gates", (uint64_t)A);
        if (top <= 16) {
            ModelSet ms(top); for (auto& c2 : f.clauses) ms.add_clause(c2);
            uint32_t mask = 0; for (long v : in) mask |= 1u << (v - 1); std::set<uint32_t> want; for (uint32_t a = 0; a < (1u << top); a++) if (ms.contains(a)) want.insert(a & mask);
            std::vector<char> val((size_t)Mx + 1, 0); uint64_t on = 0;
            for (uint32_t m = 0; m < (1u << in.size()); m++) {
                uint32_t a = 0; for (size_t i = 0; i < in.size(); i++) { val[in[i]] = m >> i & 1; if (val[in[i]]) a |= 1u << (in[i] - 1); }
                for (long v : order) val[v] = (val[lft[v] / 2] ^ (lft[v] & 1)) & (val[rgt[v] / 2] ^ (rgt[v] & 1));
                int o = val[out / 2] ^ (int)(out & 1);
                if (o != (int)want.count(a)) { violate(P, "not-equivalent", std::string("the circuit is ") + (o ? "true" : "false") + " for inputs that " + (o ? "no" : "a") + " model of the formula has"); return; } on += (uint64_t)o;
            }
            count(on ? "probe.sat_equivalence" : "probe.unsat_equivalence");
        } else {
            Formula h; h.nvars = (int)Mx; auto lit = [](long l) { return (l & 1) ? -(int)(l / 2) : (int)(l / 2); };
            int one = (int)Mx + 1; h.nvars = one; h.clauses.push_back({one}); auto L2 = [&](long l) { return l == 1 ? one : l == 0 ? -one : lit(l); };
            for (long v : order) { int o = (int)v, a = L2(lft[v]), b = L2(rgt[v]); h.clauses.push_back({-o, a}); h.clauses.push_back({-o, b}); h.clauses.push_back({o, -a, -b}); } h.clauses.push_back({L2(out)});
            int x = decide(f), y = decide(h); count(x == 10 ? "probe.large_sat" : "probe.large_unsat"); if (x && y && x != y) violate(P, "not-equisatisfiable", "circuit and formula differ in satisfiability");
        }
    }
};
Scenario* make_aig() { return new AigScenario(); }
