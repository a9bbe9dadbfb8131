// Incremental histories through the IPASIR interface under terminate requests, learn callbacks and heap garbage.
#include "scenario.h"
#include <climits>
#include <cstring>
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace sim;

namespace {
enum { T_LEARN = 2000000001, T_LEND = 2000000002, T_SOLVED = 2000000003, T_VALS = 2000000004, T_FAILED = 2000000005, T_DONE_ = 2000000006, T_BADSTATE = 2000000007, T_TERM = 2000000008, T_EXC = 2000000009 };
enum OpKind { ADD, ASSUME, SOLVE, TERM, LEARN, RENEW };
struct Op { OpKind k; std::vector<int> lits; int a, b; };   // TERM: a = mode, b = parameter; LEARN: a = max length (0 = none)

struct TermState { int mode; int64_t param; int calls; int64_t fired_at; bool fired; int magic; int after; };
TermState g_term[3]; int g_termcur; int g_learn_magic[2] = {0x1ea1, 0x1ea2}; int g_learncur, g_learnmax; bool g_insolve;
int64_t g_solve_start;
int term_cb(void* st) {
    TermState* t = (TermState*)st;
    if (t != &g_term[g_termcur] || t->magic != 0x7e4f || !g_insolve) { log_i(T_BADSTATE); return 0; }
    t->calls++; if (t->fired) t->after++;
    bool r = false;
    switch (t->mode) { // 0 never, 1 after k calls, 2 at a step of this solve, 3 pulse: a single request
        case 1: r = t->calls > t->param; break;
        case 2: r = (int64_t)now_steps() - g_solve_start >= t->param; break;
        case 3: r = t->calls == t->param + 1; break;
    }
    if (r) { if (!t->fired) { t->fired = true; t->fired_at = (int64_t)now_steps(); g_sh->f_term++; log_i(T_TERM); tracef("terminate callback asks to stop (call %d)\n", t->calls); } return 1 + (t->calls & 3); }
    return 0;
}
void learn_cb(void* st, int* c) {
    if (st != &g_learn_magic[g_learncur] || !g_insolve) log_i(T_BADSTATE);
    log_i(T_LEARN);
    int n = 0; for (; c[n] && n < 100000; n++) log_i(c[n]);
    log_i(T_LEND);
    // the solver hands over its own buffer: the callback may scribble on it
    for (int i = 0; i < n; i++) c[i] = 0x5a5a;
}
}

struct IpasirScenario : Scenario {
    int big; std::vector<std::string> opts; std::vector<Op> ops; int nv; int maxlen_override; bool deep = false, hard = false;
    explicit IpasirScenario(int b) : big(b) {}
    static void body(void* p) { ((IpasirScenario*)p)->play(); }
    void play() {
        call_parse_options(opts);
        void* s = ipasir_init();
        std::vector<int> used(nv + 40, 0), assumed; int top = 0;
        memset(g_term, 0, sizeof g_term); g_termcur = 0; g_insolve = false; g_learncur = 0;
        for (auto& o : ops) {
            switch (o.k) {
                case ADD: for (int l : o.lits) { ipasir_add(s, l); top = std::max(top, std::abs(l)); } ipasir_add(s, 0); break;
                case ASSUME: for (int l : o.lits) { ipasir_assume(s, l); assumed.push_back(l); top = std::max(top, std::abs(l)); } break;
                case TERM:
                    if (o.a < 0) { ipasir_set_terminate(s, nullptr, nullptr); g_termcur = 2; break; }
                    g_termcur = 1 - (g_termcur & 1); g_term[g_termcur] = TermState{o.a, o.b, 0, 0, false, 0x7e4f, 0}; ipasir_set_terminate(s, &g_term[g_termcur], term_cb); break;
                case LEARN:
                    if (o.a == 0) { ipasir_set_learn(s, o.b & 1 ? &g_learn_magic[g_learncur] : nullptr, o.b / 2, nullptr); break; }
                    g_learncur ^= 1; ipasir_set_learn(s, &g_learn_magic[g_learncur], maxlen_override ? maxlen_override : o.a, learn_cb); break;
                case RENEW: ipasir_release(s); s = ipasir_init(); assumed.clear(); g_termcur = 2; break;
                case SOLVE: {
                    TermState& t = g_term[g_termcur]; t.calls = 0; t.fired = false; t.after = 0;
                    g_solve_start = (int64_t)now_steps(); g_insolve = true;
                    int r = ipasir_solve(s);
                    g_insolve = false;
                    log_i(T_SOLVED); log_i(r); log_i(t.calls);
                    { int64_t now = (int64_t)now_steps(), due = t.mode == 2 ? g_solve_start + t.param : t.mode == 1 && t.fired ? t.fired_at : now; log_i(now > due ? (int)((now - due) / 1000) : 0); log_i(t.after); }
                    tracef("solve returns %d\n", r);
                    if (r == 10) { log_i(T_VALS); for (int v = 1; v <= top + 1; v++) { log_i(ipasir_val(s, v)); log_i(ipasir_val(s, -v)); } for (int v = top; v >= 1; v--) log_i(ipasir_val(s, v)); }
                    if (r == 20) { log_i(T_FAILED); for (int l : assumed) log_i(ipasir_failed(s, l)); }
                    assumed.clear();
                    break; }
            }
        }
        ipasir_release(s);
        log_i(T_DONE_);
    }
    void gen() {
        ops.clear(); opts.clear();
        // configuration: simplification in and between solve calls, frequent restarts
        gen_solver_options(opts, false, false);
        if (draw(W, 6) == 5) opts.push_back("-use-lrb"); else if (draw(W, 6) == 5) opts.push_back("-static-propagate");
        auto rlit = [&](int n) { int v = 1 + (int)draw(W, (uint32_t)n); return draw(W, 2) ? v : -v; };
        int nsolve; deep = hard = false;
        if (!big) { nv = range(W, 2, 12); nsolve = range(W, 1, 10); } else { nv = range(W, 25, 90); nsolve = range(W, 2, 7); }
        int cur = big ? nv : range(W, 1, nv); // variables in use so far
        bool learn = draw(W, 2), term = draw(W, 3) != 0, nullreset = draw(W, 6) == 5;
        if (big) {
            Formula f; uint32_t k = draw(W, 8);
            if (k == 7) { int n = range(W, 140, 200); f = gen_random(n, n * range(W, 41, 44) / 10, 3, 3); hard = true; nsolve = range(W, 1, 3); count("size.hard"); }
            else if (k >= 4) { f = gen_deep(); deep = true; deep_options(opts); count("size.deep"); nsolve = range(W, 1, 4); }
            else if (k == 0) f = gen_circuit(range(W, 3, 8), range(W, 10, 40), draw(W, 2));
            else f = gen_random(nv, (int)(nv * (3.2 + 0.1 * draw(W, 12))), 3, 3);
            nv = cur = std::max(f.nvars, f.max_used()); if (nv < 1) nv = cur = 1;
            for (auto& c : f.clauses) ops.push_back(Op{ADD, c, 0, 0});
        }
        for (int i = 0; i < nsolve; i++) {
            if (i && !hard && draw(W, 20) == 19) ops.push_back(Op{RENEW, {}, 0, 0});
            if (hard) { int m = 1 + (int)draw(W, 2); ops.push_back(Op{TERM, {}, m, m == 2 ? (int)draw(F, 4000000) : (int)draw(F, 8)}); }
            else if (term && draw(W, 3) == 0) { int m = (int)draw(W, 4); int p = m == 2 ? (int)draw(F, big ? 400000 : 8000) : (int)draw(F, 6); ops.push_back(Op{TERM, {}, m, p}); }
            if (nullreset && !hard && draw(W, 4) == 3) ops.push_back(Op{TERM, {}, -1, 0});
            if (learn && draw(W, 3) == 0) ops.push_back(Op{LEARN, {}, draw(W, 3) ? range(W, 1, 6) : draw(W, 2) ? 1000 : 2147483647, 0});
            if (learn && draw(W, 12) == 11) ops.push_back(Op{LEARN, {}, 0, draw(W, 3) == 2 ? (int)draw(W, 400) : draw(W, 2) ? 0 : 1});
            if (cur < nv && draw(W, 2)) cur = range(W, cur, nv);
            int nc = big ? (int)draw(W, i ? 6 : 1) : (int)draw(W, (uint32_t)(i == 0 ? 4 * cur + 2 : cur + 2));
            for (int j = 0; j < nc; j++) {
                Op o{ADD, {}, 0, 0};
                uint32_t kk = draw(W, 24); int len = kk == 23 ? 1 : kk == 22 ? range(W, 4, 9) : kk < 8 ? 2 : 3;
                if (kk == 21 && draw(W, 6) == 5) len = 0;
                for (int q = 0; q < len; q++) o.lits.push_back(rlit(cur));
                if (kk == 20 && !o.lits.empty()) o.lits.push_back(-o.lits[0]);
                ops.push_back(o);
            }
            uint32_t na = draw(W, 4) ? draw(W, hard ? 3 : deep ? 4 : big ? 8 : 5) : 0;
            Op as{ASSUME, {}, 0, 0};
            for (uint32_t j = 0; j < na; j++) {
                uint32_t kk = draw(W, 12);
                if (kk == 11) as.lits.push_back(cur + (int)draw(W, 5) + 1);           // a variable the solver has never seen
                else if (kk == 10 && !as.lits.empty()) as.lits.push_back(as.lits[draw(W, (uint32_t)as.lits.size())]); // duplicate
                else if (kk == 9 && !as.lits.empty() && draw(W, 3) == 2) as.lits.push_back(-as.lits[0]);   // contradictory
                else if (kk == 8 && draw(W, 6) == 5) { int l = rlit(cur); for (int q = 0; q < cur + 3; q++) as.lits.push_back(l); } // far more assumptions than variables
                else as.lits.push_back(rlit(cur));
            }
            if (!as.lits.empty()) ops.push_back(as);
            ops.push_back(Op{SOLVE, {}, 0, 0});
        }
        nv = std::max(nv, cur) + 8;
        if (draw(W, 20) == 19) { // variables with gaps
            int stride = draw(W, 3) ? range(W, 2, 9) : range(W, 10, 200), off = (int)draw(W, 40); if (big && stride > 9) stride = 9;
            for (auto& o : ops) if (o.k == ADD || o.k == ASSUME) for (int& l : o.lits) { int v = (std::abs(l) - 1) * stride + 1 + off; l = l > 0 ? v : -v; }
            nv = nv * stride + off + 1; count("size.sparse");
        }
    }
    std::string show() {
        std::string d = "ipasir [" + join(opts) + "]";
        for (auto& o : ops) {
            static const char* nm[] = {"add", "assume", "solve", "terminate", "learn", "release+init"};
            d += std::string("\n") + nm[o.k]; for (int l : o.lits) d += " " + std::to_string(l);
            if (o.k == TERM || o.k == LEARN) d += " " + std::to_string(o.a) + " " + std::to_string(o.b);
            if (d.size() > 6000) { d += " ..."; break; }
        }
        return d;
    }
    void execute() override {
        gen(); maxlen_override = 0;
        RunConfig& c = g_cfg;
        c.heap_seed = draw(F, 4) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_reuse = draw(F, 4) != 3; c.heap_guard = draw(F, 6) == 5;
        c.max_steps = big ? 300ull * 1000 * 1000 : 60ull * 1000 * 1000;
        describe = show();
        RunResult r = go(body, this);
        if (error) return;
        nontrivial = g_sh->f_term || g_sh->cov_count > 700;
        std::vector<int> log1(g_sh->log, g_sh->log + g_sh->nlog);
        if (g_sh->log_overflow) { count("note.log_overflow"); return; }
        std::vector<std::vector<int>> learnt1;
        bool ok = check(r, log1, learnt1);
        // the same history again with the length bound lifted: exactly the short clauses must have been reported
        bool bounded = false, cbonly = true; for (auto& o : ops) { if (o.k == LEARN && o.a > 0 && o.a < 1000) bounded = true; if (o.k == LEARN && o.a == 1000) cbonly = false; if (o.k == RENEW) cbonly = false; }
        if (ok && bounded && cbonly && violations.empty()) {
            int lim = -1; bool same = true; for (auto& o : ops) if (o.k == LEARN) { if (lim < 0) lim = o.a; else if (o.a != lim) same = false; }
            bool timed = false; for (auto& o : ops) if (o.k == TERM && o.a == 2) timed = true;  // step-dependent requests see the extra callbacks
            if (same && lim > 0 && !timed) {
                maxlen_override = 1000000; RunConfig keep = g_cfg; RunResult r2 = go(body, this); g_cfg = keep;
                if (error) return;
                std::vector<int> log2(g_sh->log, g_sh->log + g_sh->nlog); std::vector<std::vector<int>> all, want;
                collect(log2, all); for (auto& c2 : all) if ((int)c2.size() <= lim) want.push_back(c2);
                count("probe.learn_filter"); count("probe.learnt_reported", learnt1.size()); count("probe.learnt_all", all.size());
                if (!g_sh->log_overflow && want != learnt1) violate("C10", "learn-filter", "with length bound " + std::to_string(lim) + " " + std::to_string(learnt1.size()) + " clauses were reported, but " + std::to_string(want.size()) + " of all learnt clauses satisfy the bound");
                (void)r2;
            }
        }
    }
    void collect(const std::vector<int>& lg, std::vector<std::vector<int>>& out) {
        for (size_t i = 0; i < lg.size(); i++) if (lg[i] == T_LEARN) { std::vector<int> c; for (i++; i < lg.size() && lg[i] != T_LEND; i++) c.push_back(lg[i]); out.push_back(c); }
    }
    bool check(RunResult& r, const std::vector<int>& lg, std::vector<std::vector<int>>& learnt) {
        Shared& s = *g_sh;
        if (s.stepcap && hard) { violate("C10", "termination-not-honoured", "the callback asks to stop, but solve does not return within the step budget"); return false; }
        if (s.stepcap && deep) { count("end.budget"); return false; } // restart and reduction intervals that never grow: no bound on the search
        if (s.stepcap) { violate("C07", "no-termination", "the history does not finish within the step budget"); violate("C10", "no-termination", "the history does not finish within the step budget"); return false; }
        bool crash = r.sig || !s.finished || s.heap_corrupt;
        size_t p = 0; Formula f; f.nvars = nv; std::vector<int> as; int top = 0, learnmax = 0; bool term_on = false; int tm = 0; (void)tm;
        for (size_t oi = 0; oi < ops.size(); oi++) {
            Op& o = ops[oi];
            switch (o.k) {
                case ADD: f.clauses.push_back(o.lits); for (int l : o.lits) top = std::max(top, std::abs(l)); break;
                case ASSUME: for (int l : o.lits) { as.push_back(l); top = std::max(top, std::abs(l)); } break;
                case TERM: term_on = o.a >= 0; tm = o.a; break;
                case LEARN: learnmax = o.a; break;
                case RENEW: f.clauses.clear(); as.clear(); term_on = false; learnmax = 0; break;
                case SOLVE: {
                    bool fired = false;
                    for (; p < lg.size() && lg[p] != T_SOLVED; p++) {
                        if (lg[p] == T_TERM) fired = true;
                        else if (lg[p] == T_BADSTATE) { violate("C10", "wrong-callback-state", "a callback was called with a stale state pointer or outside of solve"); return false; }
                        else if (lg[p] == T_LEARN) {
                            std::vector<int> c; for (p++; p < lg.size() && lg[p] != T_LEND; p++) c.push_back(lg[p]);
                            learnt.push_back(c); count("probe.learnt");
                            if (!learnmax) { violate("C10", "learn-not-set", "learn callback invoked although none is set"); return false; }
                            if ((int)c.size() > learnmax) { violate("C10", "learn-too-long", "clause of length " + std::to_string(c.size()) + " with bound " + std::to_string(learnmax)); return false; }
                            for (int l : c) if (l == 0 || std::abs(l) > top) { violate("C10", "learn-bad-literal", "literal " + std::to_string(l)); return false; }
                            if (learnt.size() < 400 && (!big || learnt.size() % 5 == 0)) {
                                Formula g = f; for (int l : c) g.clauses.push_back(std::vector<int>(1, -l));
                                if (decide(g, big ? 20000 : 200000) == 10) { std::string d; for (int l : c) d += std::to_string(l) + " "; violate("C10", "learnt-not-implied", "reported clause is not a consequence of the formula: " + d); return false; }
                                count("probe.learnt_checked");
                            }
                        }
                    }
                    if (p >= lg.size()) { // died in this call
                        if (crash) { std::string d = "died with signal " + std::to_string(r.sig) + (s.heap_corrupt ? " (heap corrupted)" : "") + " in solve call"; for (const char* pr : {"C07", "C08", "C09", "C10"}) violate(pr, "crash", d); }
                        return false;
                    }
                    p++; int res = lg[p++]; int calls = lg[p++]; int late = lg[p++], after = lg[p++];
                    count(res == 10 ? "solve.sat" : res == 20 ? "solve.unsat" : "solve.interrupted"); if (as.size()) count("solve.with_assumptions"); if (oi && ops.size()) count("solve.calls");
                    Formula g = f; for (int a : as) g.clauses.push_back(std::vector<int>(1, a));
                    std::string where = " in solve call at operation " + std::to_string(oi);
                    if (res != 0 && res != 10 && res != 20) violate("C07", "bad-return", "solve returned " + std::to_string(res));
                    int truth = res == 20 ? decide(g) : 0;
                    if (res == 20 && truth == 10) { violate("C07", "wrong-unsat", "UNSAT for a satisfiable formula and assumptions" + where); return false; }
                    if (res == 0 && !fired) { violate("C07", "interrupted-without-request", "solve gave up although no termination was requested" + where); return false; }
                    if (term_on && res != 0 && fired && tm != 3) count("probe.answer_despite_request");
                    if (g_sh->cov_count > 0 && r.out.find("c Inprocessing") != std::string::npos) count("probe.inprocessing_history");
                    if (term_on && tm != 3 && (late > 20000 || after > 50)) { violate("C10", "termination-not-honoured", "the callback asks to stop, but solve goes on for " + std::to_string(late) + "000 steps and " + std::to_string(after) + " further calls of the callback" + where); return false; }
                    if (term_on && fired && hard) count("probe.hard_interrupted");
                    if (term_on) count("probe.term_calls", (uint64_t)calls);
                    if (res == 10) {
                        if (lg[p++] != T_VALS) return false;
                        std::vector<signed char> m((size_t)top + 2, 0); bool bad = false; std::string why;
                        for (int v = 1; v <= top + 1; v++) {
                            int a = lg[p++], b = lg[p++];
                            if (a != v && a != -v && a != 0) { bad = true; why = "val(" + std::to_string(v) + ") = " + std::to_string(a); }
                            else if (a != b) { bad = true; why = "val(" + std::to_string(v) + ") = " + std::to_string(a) + " but val(" + std::to_string(-v) + ") = " + std::to_string(b); }
                            m[(size_t)v] = a == v ? 1 : a == -v ? -1 : 0;
                        }
                        for (int v = top; v >= 1; v--) { int a = lg[p++]; if (m[(size_t)v] != (a == v ? 1 : a == -v ? -1 : 0)) { bad = true; why = "val(" + std::to_string(v) + ") changes between queries"; } }
                        if (bad) { violate("C08", "inconsistent-value", why + where); return false; }
                        count("probe.model");
                        if (!satisfies(g.clauses, m)) {
                            if (decide(g) == 20) { violate("C07", "wrong-sat", "SAT for an unsatisfiable formula and assumptions" + where); violate("C08", "model-of-unsat", "SAT for an unsatisfiable formula and assumptions" + where); }
                            else { bool fa = false; for (int a : as) if (m[(size_t)std::abs(a)] != (a > 0 ? 1 : -1)) fa = true;
                                violate("C08", fa ? "model-violates-assumption" : "model-falsifies", std::string("the model violates ") + (fa ? "an assumption" : "a clause") + where); }
                            return false;
                        }
                    }
                    if (res == 20) {
                        if (lg[p++] != T_FAILED) return false;
                        Formula h = f; size_t core = 0;
                        for (int a : as) { int x = lg[p++]; if (x != 0 && x != 1) { violate("C09", "bad-return", "failed returned " + std::to_string(x)); return false; } if (x) { h.clauses.push_back(std::vector<int>(1, a)); core++; } }
                        count("probe.core"); if (core && core < as.size()) count("probe.proper_core");
                        if (truth == 20 && decide(h) == 10) { violate("C09", "core-satisfiable", "the " + std::to_string(core) + " failed assumptions of " + std::to_string(as.size()) + " do not suffice for unsatisfiability" + where); return false; }
                    }
                    as.clear();
                    break; }
            }
        }
        for (; p < lg.size() && lg[p] != T_DONE_; p++) {}
        if (p >= lg.size() || crash) { std::string d = "died with signal " + std::to_string(r.sig) + (s.heap_corrupt ? " (heap corrupted)" : "") + " outside of solve"; for (const char* pr : {"C07", "C08", "C09", "C10"}) violate(pr, "crash", d); return false; }
        return true;
    }
};
Scenario* make_ipasir() { return new IpasirScenario(0); }
Scenario* make_ipasir_big() { return new IpasirScenario(1); }
