// The built-in proof checker on proofs written by the real solver, damaged in all ways a disk or a person can.
// Oracle: exact satisfiability for soundness; unit propagation without deletions for refutation; acceptance of undamaged proofs.
#include "scenario.h"
#include <algorithm>
#include <cerrno>
#include <cstring>
#include <unistd.h>
#include <zlib.h>
#include "candy/core/CNFProblem.h"
#include "candy/core/DRATChecker.h"
#include "candy/utils/Exceptions.h"
#include "candy/frontend/CLIOptions.h"
using namespace sim;
namespace {
typedef std::vector<std::vector<int>> Cls;
struct Line { bool del; std::vector<int> l; };
std::vector<Line> parse(const std::string& p) {
    std::vector<Line> r; size_t i = 0;
    while (i < p.size()) { size_t e = p.find('\n', i); if (e == std::string::npos) e = p.size(); std::string s = p.substr(i, e - i); i = e + 1;
        Line L; L.del = !s.empty() && s[0] == 'd'; const char* q = s.c_str() + (L.del ? 1 : 0); char* n; for (;;) { long v = strtol(q, &n, 10); if (n == q || v == 0) break; L.l.push_back((int)v); q = n; } r.push_back(L); }
    return r;
}
std::string print(const std::vector<Line>& v) { std::string s; for (auto& L : v) { if (L.del) s += "d "; for (int l : L.l) { s += std::to_string(l); s += ' '; } s += "0\n"; } return s; }
// unit propagation over all clauses ever present: no clause set a checker may use is stronger
struct Up {
    Cls db; int n; std::vector<signed char> v; bool contra = false;
    bool run(std::vector<signed char>& a) { for (bool ch = true; ch;) { ch = false; for (auto& c : db) { int free = 0, last = 0; bool sat = false; for (int l : c) { int x = a[(size_t)std::abs(l)] * (l > 0 ? 1 : -1); if (x > 0) { sat = true; break; } if (x == 0 && l != last) { free++; last = l; } } if (sat) continue; if (free == 0) return false; if (free == 1) { a[(size_t)std::abs(last)] = last > 0 ? 1 : -1; ch = true; } } } return true; }
    void settle() { if (!contra && !run(v)) contra = true; }
    bool rup(const std::vector<int>& c) { if (contra) return true; std::vector<signed char> a = v; for (int l : c) { int x = a[(size_t)std::abs(l)] * (l > 0 ? 1 : -1); if (x > 0) return true; a[(size_t)std::abs(l)] = l > 0 ? -1 : 1; } return !run(a); }
};
std::string gzs(const std::string& s) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, 6, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY); std::string o(deflateBound(&z, s.size()) + 64, 0);
    z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size(); deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
}

struct CheckerScenario : Scenario {
    std::vector<std::string> args; Formula f;
    static void write_body(void* p) { CheckerScenario* me = (CheckerScenario*)p; int rc = call_candy_main(me->args); exit(rc); }
    static void check_body(void* p) { ((CheckerScenario*)p)->run_checker(); }
    void run_checker() {
        using namespace Candy;
        CNFProblem pb; for (auto& c : f.clauses) { Cl cl; for (int l : c) cl.push_back(Lit(std::abs(l) - 1, l < 0)); pb.readClause(cl); }
        int ans = -1;
        try { DRATChecker ck(pb); ans = ck.check_proof(file_path(FIN).c_str()) ? 1 : 0; } catch (ParserException& e) { ans = 2; }
        log_i(ans);
    }
    // RAT with all clauses ever present for propagation and only those for resolution that no deletion might have meant
    static bool has(const std::vector<int>& c, int l) { return std::find(c.begin(), c.end(), l) != c.end(); }
    static bool is_rat(Up& up, const std::vector<int>& c, const Cls& dels) {
        for (int p : c) { bool ok = true;
            for (size_t i = 0; ok && i < up.db.size(); i++) { const std::vector<int>& d = up.db[i]; if (!has(d, -p)) continue;
                bool taut = false, gone = false; for (int l : d) if (has(d, -l)) taut = true; for (auto& y : dels) { bool sub = !y.empty(); for (int l : y) if (!has(d, l)) sub = false; if (sub) gone = true; } if (taut || gone) continue;
                std::vector<int> r = c; for (int l : d) if (l != -p) r.push_back(l); if (!up.rup(r)) ok = false; }
            if (ok) return true; }
        return false; }
    // a deletion that can only mean one clause takes it away (what it implied before stays)
    static bool drop(Up& up, std::vector<int> l) {
        auto distinct = [](std::vector<int>& c) { std::sort(c.begin(), c.end()); return std::adjacent_find(c.begin(), c.end()) == c.end(); };
        if (l.size() < 2 || !distinct(l)) return false;
        for (size_t i = 0; i < up.db.size(); i++) { std::vector<int> d = up.db[i]; if (d.size() == l.size() && distinct(d) && d == l) { up.db.erase(up.db.begin() + (long)i); return true; } }
        return false;
    }
    // every line of a verified proof has to be RUP or RAT at its place, and the lines together have to derive a conflict
    bool judge(const std::vector<Line>& K, bool odd, const std::string& how) {
        Up up; int n = f.max_used(); std::vector<std::vector<int>> dels; for (auto& x : K) for (int l : x.l) if (std::abs(l) < 100000) n = std::max(n, std::abs(l));
        up.n = n; up.v.assign((size_t)n + 1, 0); bool e = false; for (auto x : f.clauses) { if (x.empty()) e = true; std::sort(x.begin(), x.end()); x.erase(std::unique(x.begin(), x.end()), x.end()); up.db.push_back(x); } up.contra = e; up.settle(); bool rat = false;
        for (auto& x : K) { if (up.contra) break; if (x.del) { if (!drop(up, x.l)) dels.push_back(x.l); continue; } bool big = false; for (int l : x.l) if (std::abs(l) >= 100000) big = true; if (big) { rat = true; break; } if (!up.rup(x.l)) { if (odd) { rat = true; break; } if (!is_rat(up, x.l, dels)) { std::string t; for (int l : x.l) t += std::to_string(l) + " "; violate("C14", "invalid-line-accepted", "verified although the line '" + t + "0' is neither RUP nor RAT: proof " + how); return false; } count("probe.rat_lines"); } if (x.l.empty()) { up.contra = true; break; } up.db.push_back(x.l); up.settle(); }
        if (!rat && !odd) { count("probe.strength_checked"); if (!up.contra) violate("C14", "no-refutation-accepted", "verified although the proof does not derive a conflict: proof " + how); }
        if (rat) count("probe.rat_or_invalid");
        return true;
    }
    // many short proofs at once: a few arbitrary lines, then the proof that refutes every unsatisfiable formula
    std::vector<std::string> texts;
    static void batch_body(void* p) {
        using namespace Candy; CheckerScenario* me = (CheckerScenario*)p;
        for (auto& t : me->texts) { set_file(FIN, t); me->run_checker(); }
    }
    void batch() {
        int n = range(W, 4, 7); Up up; f = Formula();
        for (int t = 0; t < 40; t++) { // formulas that unit propagation alone does not refute
            int m = range(W, 3 * n, 7 * n); f = Formula(); f.family = "dense"; f.nvars = n; bool wide = draw(W, 2);
            for (int i = 0; i < m; i++) { std::vector<int> c; size_t e = !wide && draw(W, 8) == 7 ? 2 : 3; for (int k = 0; c.size() < e && k < 40; k++) { int v = range(W, 1, n); if ((!has(c, v) && !has(c, -v)) || draw(W, 32) == 31) c.push_back(draw(W, 2) ? v : -v); } f.clauses.push_back(c); }
            up = Up(); up.n = n; up.v.assign((size_t)n + 1, 0); up.db = f.clauses; up.settle(); if (up.contra) continue; if (t > 30) break;
            int weak = 0; for (int a = 1; a <= n; a++) weak += !up.rup(std::vector<int>(1, a)) + !up.rup(std::vector<int>(1, -a)); if (weak >= 2 && decide(f) == 20) break;
        }
        bool sat = decide(f) == 10; texts.clear(); std::vector<std::vector<Line>> lines; int K = range(W, 4, 48);
        for (int i = 0; i < K; i++) {
            std::vector<Line> L;
            for (int t = 0; t < 24; t++) { // mostly lines that are neither RUP nor RAT
                L.clear();
                for (int j = 0, e = draw(F, 4) == 3 ? 2 : 1; j < e; j++) { Line x; x.del = false; for (int k = 0, q = range(F, 1, 3); k < q; k++) { int v = range(F, 1, n); bool dup = false; for (int l : x.l) if (std::abs(l) == v) dup = true; if (!dup || draw(F, 16) == 15) x.l.push_back(draw(F, 2) ? v : -v); } L.push_back(x); }
                if (!up.rup(L[0].l) && !is_rat(up, L[0].l, Cls())) break;
            }
            if (draw(F, 6) == 5) { Line y; y.del = true; y.l = draw(F, 3) ? f.clauses[draw(F, (uint32_t)f.clauses.size())] : L[draw(F, (uint32_t)L.size())].l; L.insert(L.begin() + (long)draw(F, (uint32_t)L.size() + 1), y); }
            for (int k = n; k >= 0; k--) for (int a = 0; a < (1 << k); a++) { Line x; x.del = false; for (int v = 1; v <= k; v++) x.l.push_back(a >> (v - 1) & 1 ? v : -v); L.push_back(x); }
            lines.push_back(L); texts.push_back(print(L));
        }
        RunConfig& c = g_cfg; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 4) == 3; c.max_steps = 400ull * 1000 * 1000;
        if (draw(F, 3) == 2) { c.read_chunk = 1u << draw(F, 13); c.read_chunk_random = draw(F, 2); }
        describe = "checker | " + std::to_string(K) + " made-up proofs of a formula\n" + to_dimacs(f); count("probe.batches");
        RunResult q = go(batch_body, this);
        if (error) return;
        Shared& s = *g_sh; nontrivial = true;
        if (s.stepcap) { violate("C14", "endless", "the checker did not end on made-up proofs"); return; }
        if (q.sig) { violate("C14", "crash-" + std::to_string(q.sig), "the checker died with signal " + std::to_string(q.sig) + " on made-up proofs"); return; }
        if (s.heap_corrupt) violate("C14", "heap-corruption", "heap block overrun on made-up proofs");
        if ((int)s.nlog < K) { violate("C14", "no-result", "the checker gave no result on made-up proofs"); return; }
        for (int i = 0; i < K; i++) {
            int ans = s.log[i]; count(ans == 1 ? "end.batch_verified" : ans == 0 ? "end.batch_refused" : "end.batch_unreadable"); if (ans != 1) continue;
            std::string how = "with the lines "; for (auto& x : lines[(size_t)i]) { if ((int)x.l.size() == n && !x.del) { bool all = true; for (int v = 1; v <= n; v++) if (x.l[(size_t)v - 1] != -v) all = false; if (all) break; } if (x.del) how += "d "; for (int l : x.l) how += std::to_string(l) + " "; how += "0, "; } how += "then a complete tree";
            if (sat) { violate("C14", "unsound", "verified a proof for a satisfiable formula: proof " + how); return; }
            if (!judge(lines[(size_t)i], false, how)) return;
        }
    }
    void execute() override {
        args.clear(); count("probe.cases");
        if (draw(W, 3) == 2) { batch(); return; }
        gen_solver_options(args, true, false);
        for (auto& a : args) if (a == "-use-vsidsc") a = "-use-lrb";
        bool gates = false; for (auto& a : args) if (a.find("rsar") != std::string::npos) gates = true;
        f = gen_formula(draw(W, 8) == 7 && !gates ? 1 : 0);
        f.planted.clear(); if (draw(W, 3) == 2) { // make unsatisfiable formulas more frequent
            int n = std::max(2, f.max_used()); for (int i = 0; i < 3 * n && decide(f) == 10; i++) { std::vector<int> c; for (int k = 0, e = range(W, 1, 3); k < e; k++) { int v = 1 + (int)draw(W, (uint32_t)n); c.push_back(draw(W, 2) ? v : -v); } f.clauses.push_back(c); } f.planted.clear(); }
        args.push_back("-certified-output=" + file_path(FPROOF)); set_file(FIN, to_dimacs(f)); args.push_back(file_path(FIN));
        RunConfig& c = g_cfg; c.ns_per_step = 100; c.max_steps = 200ull * 1000 * 1000;
        RunResult r = go(write_body, this);
        if (error) return;
        std::string proof = r.proof; bool unsat = r.exited && r.code == 20;
        if (g_sh->stepcap || r.sig) { count("end.budget"); return; }   // C01 and C03 look at this
        if (proof.size() > 300000) { count("probe.too_long"); return; }
        bool pristine = unsat; std::vector<Line> L = parse(proof);
        std::string how = "undamaged";
        uint32_t dmg = draw(F, 17); bool harmless = false; Formula orig = f;
        auto pick = [&]() { return L.empty() ? 0 : (size_t)draw(F, (uint32_t)L.size()); };
        std::string text = proof; 
        int top = std::max(1, f.max_used());
        switch (dmg) {
            default: break;
            case 2: { size_t k = draw(F, (uint32_t)proof.size() + 1); text = proof.substr(0, k); how = "torn"; pristine = false; break; }
            case 3: { for (int i = 0, e = range(F, 1, 5); i < e && !L.empty(); i++) L.erase(L.begin() + (long)pick()); text = print(L); how = "lines lost"; pristine = false; break; }
            case 4: { for (int i = 0, e = range(F, 1, 4); i < e && !L.empty(); i++) { Line& x = L[pick()]; if (x.l.empty()) continue; size_t q = draw(F, (uint32_t)x.l.size()); switch (draw(F, 4)) { case 0: x.l[q] = -x.l[q]; break; case 1: x.l.erase(x.l.begin() + (long)q); break; case 2: x.l[q] = (x.l[q] > 0 ? 1 : -1) * range(F, 1, top + 2); break; case 3: x.l.push_back(x.l[q]); } } text = print(L); how = "literals changed"; pristine = false; break; }
            case 5: { if (L.size() > 1) for (int i = 0, e = range(F, 1, 4); i < e; i++) { size_t a = pick(), b = pick(); std::swap(L[a], L[b]); } text = print(L); how = "reordered"; pristine = false; break; }
            case 6: { L.clear(); for (int i = 0, e = range(F, 0, 12); i < e; i++) { Line x; x.del = draw(F, 4) == 3; for (int k = 0, m = range(F, 0, 4); k < m; k++) { int v = range(F, 1, top); x.l.push_back(draw(F, 2) ? v : -v); } L.push_back(x); } if (draw(F, 2)) L.push_back(Line{false, {}}); text = print(L); how = "made up"; pristine = false; break; }
            case 7: { text = proof; for (int i = 0, e = range(F, 1, 3); i < e && !text.empty(); i++) { static const char G[] = {'x', '-', ' ', '0', '\0', (char)0xff, 'd', '9', '\n', 'c'}; text[draw(F, (uint32_t)text.size())] = G[draw(F, sizeof G)]; } how = "bytes changed"; pristine = false; break; }
            case 8: { static const int V[] = {1, 2, 1000, 1000000, 500000000, 1073741823, 2147483647, -1, -1000000, -2147483647}; Line x; x.del = draw(F, 2); x.l.push_back(top + 1 > 0 ? V[draw(F, 10)] + (draw(F, 2) ? top : 0) % 1000 * 0 : 1); if (draw(F, 2)) x.l.push_back(-1); L.insert(L.begin() + (long)(L.empty() ? 0 : draw(F, (uint32_t)L.size())), x); text = print(L); how = "foreign variable"; pristine = false; break; }
            case 9: case 10: { // the proof of another formula: drop or change clauses of this one
                if (!f.clauses.empty()) for (int i = 0, e = range(F, 1, 3); i < e && !f.clauses.empty(); i++) { size_t q = draw(F, (uint32_t)f.clauses.size()); if (dmg == 9 || f.clauses[q].empty()) f.clauses.erase(f.clauses.begin() + (long)q); else { size_t k = draw(F, (uint32_t)f.clauses[q].size()); f.clauses[q][k] = -f.clauses[q][k]; } } how = "proof of another formula"; pristine = false; break; }
            case 14: { for (int i = 0, e = range(F, 1, 3); i < e; i++) { Line x; x.del = false; for (int k = 0, m = range(F, 1, 3); k < m; k++) { int v = range(F, 1, top); x.l.push_back(draw(F, 2) ? v : -v); } L.insert(L.begin() + (long)draw(F, (uint32_t)L.size() + 1), x); } text = print(L); how = "lines added"; pristine = false; break; }
            case 15: case 16: if (top <= 6) { // some lines, then the proof that refutes every unsatisfiable formula
                L.clear(); for (int i = 0, e = range(F, 1, 2); i < e; i++) { Line x; x.del = false; for (int k = 0, m = range(F, 1, 3); k < m; k++) { int v = range(F, 1, top); x.l.push_back(draw(F, 2) ? v : -v); } L.push_back(x); if (!f.clauses.empty() && draw(F, 4) == 3) { Line y; y.del = true; y.l = f.clauses[draw(F, (uint32_t)f.clauses.size())]; L.insert(L.begin(), y); } }
                for (int k = top; k >= 0; k--) for (int a = 0; a < (1 << k); a++) { Line x; x.del = false; for (int v = 1; v <= k; v++) x.l.push_back(a >> (v - 1) & 1 ? v : -v); L.push_back(x); } text = print(L); how = "lines and a complete tree"; pristine = false; break; } break;
            case 11: { for (int i = 0, e = range(F, 1, 6); i < e && !L.empty(); i++) { size_t q = pick(); if (!L[q].del) L.insert(L.begin() + (long)q, L[q]); } text = print(L); harmless = true; how = "lemmas repeated"; break; }
            case 12: { std::vector<Line> M; for (auto& x : L) if (!x.del || draw(F, 2)) M.push_back(x); L = M; text = print(L); harmless = true; how = "deletions dropped"; break; }
            case 13: { text.clear(); for (auto& x : L) { if (draw(F, 6) == 5) text += draw(F, 2) ? "c a comment 1 2 0\n" : "\n"; std::string s = print(std::vector<Line>(1, x)); if (draw(F, 6) == 5) s.insert(s.size() - 1, draw(F, 2) ? "\r" : "  "); text += s; } harmless = true; how = "layout changed"; break; }
        }
        bool z = draw(F, 6) == 5; std::string data = z ? gzs(text) : text;
        uint64_t hs = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); bool guard = draw(F, 4) == 3;
        g_cfg = RunConfig(); c.heap_seed = hs; c.heap_guard = guard; c.max_steps = 400ull * 1000 * 1000;
        if (draw(F, 3) == 2) { c.read_chunk = 1u << draw(F, 13); c.read_chunk_random = draw(F, 2); }
        bool rf = draw(F, 10) == 9; if (rf) { c.read_fail_at = 1 + draw(F, 3); c.read_errno = EIO; c.read_fail_sticky = true; }
        set_file(FIN, data);
        describe = "checker | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()) + " | proof " + how + (z ? " gzip" : "") + " lines=" + std::to_string(L.size()) + " from candy " + join(args);
        if (text.size() < 1500) describe += "\n" + to_dimacs(f) + "PROOF\n" + text;
        RunResult q = go(check_body, this);
        if (error) return;
        Shared& s = *g_sh; nontrivial = dmg >= 2 || s.f_read_short || s.f_read_err; count("probe.proof_" + std::string(dmg < 2 ? "undamaged" : harmless ? "harmless" : "damaged"));
        if (s.stepcap) { violate("C14", "endless", "the checker did not end: proof " + how); return; }
        if (q.sig) { violate("C14", "crash-" + std::to_string(q.sig), "the checker died with signal " + std::to_string(q.sig) + ": proof " + how); return; }
        if (s.heap_corrupt) violate("C14", "heap-corruption", "heap block overrun: proof " + how);
        if (s.nlog < 1) { violate("C14", "no-result", "the checker gave no result: proof " + how); return; }
        int ans = s.log[0]; count(ans == 1 ? "end.verified" : ans == 0 ? "end.refused" : "end.unreadable");
        if (ans == 1) {
            if (decide(f) == 10) { violate("C14", "unsound", "verified a proof for a satisfiable formula: proof " + how); return; }
            if (f.max_used() <= 40 && text.size() < 20000 && !judge(dmg == 13 ? L : parse(text), dmg == 7, how)) return; // no checker can be stronger than this
        }
        if (unsat && (pristine) && !rf && ans != 1) {
            DratResult d = drat_check(orig, proof, false); bool need = d.ok && d.refuted;
            if (harmless) { // only proofs without RAT steps stay valid for certain
                Up up; int n = std::max(orig.nvars, orig.max_used()); for (auto& x : L) for (int l : x.l) n = std::max(n, std::abs(l)); up.v.assign((size_t)n + 1, 0); for (auto& x : orig.clauses) up.db.push_back(x); up.settle(); if (L.size() > 400) need = false;
                for (size_t i = 0; need && i < L.size(); i++) { auto& x = L[i]; if (x.del || up.contra) continue; if (!up.rup(x.l)) need = false; up.db.push_back(x.l); up.settle(); }
            }
            if (need) { count("probe.must_accept"); violate("C14", "valid-proof-rejected", "the checker rejects a valid proof: " + how + ": candy " + join(args)); }
        } else if (unsat && pristine && !rf && ans == 1) count("probe.accepted_own_proof");
    }
};
Scenario* make_checker() { return new CheckerScenario(); }
