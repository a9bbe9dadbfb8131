// Several solver instances used at the same time, interleaved in one thread or in threads of their own.
// Oracle: the log of each caller is exactly the log of the same history run alone, and the answers are right.
#include "scenario.h"
#include <cstring>
#include <iostream>
#include <pthread.h>
extern "C" {
#include "candy/ipasir/ipasir.h"
}
using namespace sim;
namespace {
enum K { ADD, ASSUME, SOLVE, RENEW };
struct Op { K k; std::vector<int> lits; };
struct Actor {
    std::vector<Op> ops; std::vector<int> log; void* s; std::vector<int> assumed; int top, learn, termafter, calls; size_t pos; bool insolve; bool done; int dom;
    void start();
    void stepop();
};
int term_cb(void* p) { Actor* a = (Actor*)p; if (!a->insolve) a->log.push_back(-777001); a->calls++; return a->termafter >= 0 && a->calls > a->termafter ? 1 : 0; }
void learn_cb(void* p, int* c) { Actor* a = (Actor*)p; if (!a->insolve) a->log.push_back(-777002); a->log.push_back(-777100); for (int i = 0; c[i] && i < 1000; i++) a->log.push_back(c[i]); a->log.push_back(-777101); }
void Actor::start() {
    s = ipasir_init(); pos = 0; insolve = false; done = false; calls = 0; top = 0; log.clear(); assumed.clear();
    if (learn) ipasir_set_learn(s, this, learn, learn_cb);
    if (termafter >= 0) ipasir_set_terminate(s, this, term_cb);
}
void Actor::stepop() {
    if (done) return;
    if (pos >= ops.size()) { ipasir_release(s); done = true; return; }
    Op& o = ops[pos++];
    switch (o.k) {
        case ADD: for (int l : o.lits) { ipasir_add(s, l); top = std::max(top, std::abs(l)); } ipasir_add(s, 0); break;
        case ASSUME: for (int l : o.lits) { ipasir_assume(s, l); assumed.push_back(l); top = std::max(top, std::abs(l)); } break;
        case RENEW: ipasir_release(s); s = ipasir_init(); assumed.clear(); if (learn) ipasir_set_learn(s, this, learn, learn_cb); if (termafter >= 0) ipasir_set_terminate(s, this, term_cb); break;
        case SOLVE: {
            calls = 0; insolve = true; int r = ipasir_solve(s); insolve = false;
            log.push_back(-777200); log.push_back(r); log.push_back(termafter >= 0 ? calls : 0);
            if (r == 10) for (int v = 1; v <= top; v++) log.push_back(ipasir_val(s, v));
            if (r == 20) for (int l : assumed) log.push_back(ipasir_failed(s, l));
            assumed.clear(); break; }
    }
}
void* actor_thread(void* p) { Actor* a = (Actor*)p; set_heap_domain(a->dom); a->start(); while (!a->done) { a->stepop(); maybe_point(); } return nullptr; }
}

struct IsolationScenario : Scenario {
    std::vector<std::string> opts; std::vector<Actor> actors; int mode; int solo; // mode 0 = threads, 1 = interleaved in one thread
    static void body(void* p) { ((IsolationScenario*)p)->play(); }
    void play() {
        call_parse_options(opts);
        printf("c start\n"); std::cout << "c start" << std::endl;   // stream buffers exist from now on
        for (size_t i = 0; i < actors.size(); i++) { actors[i].dom = 1 + (int)i; actors[i].log.reserve(100000); actors[i].assumed.reserve(1000); }
        if (solo >= 0) { actor_thread(&actors[(size_t)solo]); set_heap_domain(0); }
        else if (mode == 0) {
            std::vector<pthread_t> th(actors.size());
            for (size_t i = 0; i < actors.size(); i++) pthread_create(&th[i], nullptr, actor_thread, &actors[i]);
            for (auto& t : th) pthread_join(t, nullptr);
        } else {
            for (auto& a : actors) { set_heap_domain(a.dom); a.start(); }
            for (size_t left = actors.size(); left;) {
                size_t k = draw(S, (uint32_t)actors.size()); while (actors[k].done) k = (k + 1) % actors.size();
                set_heap_domain(actors[k].dom); actors[k].stepop(); if (actors[k].done) left--;
            }
            set_heap_domain(0);
        }
        for (auto& a : actors) { log_i((int)a.log.size()); for (int v : a.log) log_i(v); }
    }
    void gen(Actor& a) {
        a.ops.clear(); a.learn = draw(W, 2) ? range(W, 1, 20) : 0; a.termafter = draw(W, 3) == 2 ? (int)draw(W, 5) : -1;
        int nv = draw(W, 4) == 3 ? range(W, 20, 45) : range(W, 3, 14); int nsolve = range(W, 1, 4);
        auto rlit = [&](int n) { int v = 1 + (int)draw(W, (uint32_t)n); return draw(W, 2) ? v : -v; };
        for (int i = 0; i < nsolve; i++) {
            if (i && draw(W, 12) == 11) a.ops.push_back(Op{RENEW, {}});
            int nc = i == 0 ? (int)(nv * (2.5 + 0.1 * draw(W, 22))) : (int)draw(W, 6);
            for (int j = 0; j < nc; j++) { Op o{ADD, {}}; int len = draw(W, 12) == 11 ? 1 + (int)draw(W, 6) : draw(W, 5) == 4 ? 2 : 3; for (int q = 0; q < len; q++) o.lits.push_back(rlit(nv)); a.ops.push_back(o); }
            uint32_t na = draw(W, 2) ? draw(W, 5) : 0; Op as{ASSUME, {}}; for (uint32_t j = 0; j < na; j++) as.lits.push_back(rlit(nv));
            if (na) a.ops.push_back(as);
            a.ops.push_back(Op{SOLVE, {}});
        }
    }
    void execute() override {
        opts.clear(); gen_solver_options(opts, false, true);
        if (draw(W, 5) == 4) opts.push_back("-use-lrb"); if (draw(W, 4) == 3) opts.push_back("-static-propagate");
        mode = (int)(draw(W, 3) == 2); actors.assign(2 + (draw(W, 3) == 2), Actor());
        bool twin = draw(W, 4) == 3; // all callers run the same history
        for (size_t i = 0; i < actors.size(); i++) { if (i && twin) { actors[i].ops = actors[0].ops; actors[i].learn = actors[0].learn; actors[i].termafter = actors[0].termafter; } else gen(actors[i]); }
        RunConfig& c = g_cfg; c.heap_seed = draw(F, 4) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_reuse = draw(F, 4) != 3; c.heap_guard = draw(F, 10) == 9;
        c.max_steps = 200ull * 1000 * 1000; c.fair_after = 30ull * 1000 * 1000; c.sched_mode = 1 + (int)(draw(F, 3) != 0); static const uint64_t SL[] = {400000, 30000, 3000, 500}; c.slice_max = SL[draw(F, 4)];
        describe = std::string(mode ? "interleaved" : "threads") + " [" + join(opts) + "]";
        for (size_t i = 0; i < actors.size(); i++) { describe += "\ncaller " + std::to_string(i) + " learn " + std::to_string(actors[i].learn) + " terminate " + std::to_string(actors[i].termafter);
            for (auto& o : actors[i].ops) { static const char* nm[] = {"add", "assume", "solve", "release+init"}; describe += std::string("\n  ") + nm[o.k]; for (int l : o.lits) describe += " " + std::to_string(l); } }
        solo = -1; RunResult r = go(body, this);
        if (error) return;
        nontrivial = mode == 1 || g_sh->switches > 6; count(mode ? "mode.interleaved" : "mode.threads");
        if (g_sh->stepcap) { violate("C11", "no-termination", "concurrent use does not finish"); return; }
        if (g_sh->deadlock) { violate("C11", "deadlock", "no thread can run"); return; }
        std::vector<std::vector<int>> logs;
        bool crashed = r.sig || !g_sh->finished || g_sh->heap_corrupt; int sig = r.sig;
        if (!crashed) for (uint32_t p = 0; p < g_sh->nlog;) { int n = g_sh->log[p++]; logs.push_back(std::vector<int>(g_sh->log + p, g_sh->log + p + n)); p += (uint32_t)n; }
        RunConfig keep = g_cfg;
        for (size_t i = 0; i < actors.size(); i++) {
            g_cfg = keep; g_cfg.sched_mode = 0; solo = (int)i;
            uint64_t h = sig_save(); RunResult q = go(body, this); sig_restore(h);
            if (error) return;
            bool solo_crash = q.sig || !g_sh->finished || g_sh->heap_corrupt || g_sh->stepcap;
            if (solo_crash) { count("note.solo_failure"); return; }     // fails alone: another property
            if (crashed) continue;
            std::vector<int> want; uint32_t p = 0; for (size_t k = 0; k < actors.size(); k++) { int n = g_sh->log[p++]; if (k == i) want.assign(g_sh->log + p, g_sh->log + p + n); p += (uint32_t)n; }
            count("probe.solves_compared", (uint64_t)std::count(want.begin(), want.end(), -777200)); count("probe.learnt_compared", (uint64_t)std::count(want.begin(), want.end(), -777100));
            if (want != logs[i]) { size_t d = 0; while (d < want.size() && d < logs[i].size() && want[d] == logs[i][d]) d++;
                violate("C11", "differs-from-solo", "caller " + std::to_string(i) + " observes something else than alone (entry " + std::to_string(d) + " of " + std::to_string(want.size()) + ")"); return; }
        }
        g_cfg = keep;
        if (crashed) violate("C11", "crash", "died with signal " + std::to_string(sig) + " although every caller alone succeeds");
    }
    uint64_t sig_save() { return sig; }
    void sig_restore(uint64_t h) { sig = h; }
};
Scenario* make_isolation() { return new IsolationScenario(); }
