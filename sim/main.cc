#include "scenario.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <unistd.h>
#include <fcntl.h>
#include <sys/personality.h>
#include "candy/utils/Options.h"
using namespace sim;

uint64_t hash_str(const std::string& s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
std::string clip(const std::string& s, size_t n) { return s.size() <= n ? s : s.substr(0, n) + "..."; }
std::string join(const std::vector<std::string>& v) { std::string r; for (auto& x : v) { if (!r.empty()) r += ' '; r += x; } return r; }
std::vector<std::string> lines_with(const std::string& out, const std::string& pre) {
    std::vector<std::string> r; size_t p = 0;
    while (p < out.size()) {
        size_t e = out.find('\n', p); if (e == std::string::npos) e = out.size();
        if (out.compare(p, pre.size(), pre) == 0) r.push_back(out.substr(p, e - p));
        p = e + 1;
    }
    return r;
}
void call_parse_options(const std::vector<std::string>& a) {
    static std::vector<char*> av; static char name[] = "candy";
    av.clear(); av.push_back(name);
    for (auto& s : a) av.push_back(strdup(s.c_str()));
    av.push_back(nullptr);
    int argc = (int)av.size() - 1;
    Candy::parseOptions(argc, av.data(), true);
}
int call_candy_main(const std::vector<std::string>& a) {
    static std::vector<char*> av; static char name[] = "candy";
    av.clear(); av.push_back(name);
    for (auto& s : a) av.push_back(strdup(s.c_str()));
    av.push_back(nullptr);
    return candy_main((int)av.size() - 1, av.data());
}

RunResult Scenario::go(BodyFn body, void* arg, double host_timeout) {
    RunResult r = sim::run(body, arg, host_timeout);
    runs++;
    steps += g_sh->steps; vtime += g_sh->vtime_ns;
    if (r.host_timeout) { error = true; error_msg = "host timeout"; }
    if (r.exited && r.code == 98) { error = true; error_msg = "simulator internal error"; }
    uint64_t h = hash;
    h = mix64(h ^ g_sh->event_hash); h = mix64(h ^ g_sh->steps); h = mix64(h ^ g_sh->ctx_hash); h = mix64(h ^ g_sh->cov_hash);
    h = mix64(h ^ hash_str(r.out)); h = mix64(h ^ hash_str(r.proof)); h = mix64(h ^ (uint64_t)(r.code + 1000 * r.sig));
    h = mix64(h ^ g_sh->allocs);
    hash = h;
    sig = mix64(sig ^ g_sh->cov_hash ^ mix64(g_sh->ctx_hash));
    Shared& s = *g_sh;
    count("fault.signal_handled", s.signals_delivered[0]); count("fault.signal_default", s.signals_delivered[1]);
    count("fault.read_short", s.f_read_short); count("fault.read_error", s.f_read_err); count("fault.open_error", s.f_open_err);
    count("fault.write_short", s.f_write_short); count("fault.write_error", s.f_write_err); count("fault.crash", s.f_crash);
    count("fault.stdout_full", s.f_stdout_err); count("fault.alloc_failure", s.f_alloc); count("fault.clock_jump", s.f_clockjump);
    count("fault.memory_growth_seen", s.f_rss); count("fault.terminate_request", s.f_term);
    count("sched.switches", s.switches); count("sched.preempt_shared", s.preempt_shared); count("sched.preempt_quantum", s.preempt_quantum);
    count("sched.timer_jumps", s.timer_jumps); count("sched.threads", s.threads_created);
    count("end.signal_" + std::to_string(r.sig), r.sig ? 1 : 0); count("end.stepcap", s.stepcap ? 1 : 0);
    return r;
}

static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jesc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
    return r;
}
static const Violation* find_violation(Scenario& sc, const std::string& prop) {
    for (auto& v : sc.violations) if (v.prop == prop || prop == "*") return &v;
    return nullptr;
}
static void get_tapes(std::vector<uint32_t> t[NTAPES]) {
    for (int i = 0; i < NTAPES; i++) { t[i].assign(g_sh->tape[i].data, g_sh->tape[i].data + g_sh->tape[i].n); while (!t[i].empty() && t[i].back() == 0) t[i].pop_back(); }
}
static void exec_tapes(Scenario& sc, const std::vector<uint32_t> t[NTAPES]) { sc.reset(); begin_tapes_replay(t); g_cfg = RunConfig(); sc.execute(); }
static void exec_seed(Scenario& sc, uint64_t seed) { sc.reset(); begin_tapes_generate(seed); g_cfg = RunConfig(); sc.execute(); }

static bool write_replay(const char* path, const std::string& scen, const std::string& prop, uint64_t seed, Scenario& sc, const Violation& v, const std::vector<uint32_t> t[NTAPES]) {
    FILE* f = fopen(path, "w"); if (!f) return false;
    fprintf(f, "SIMREPLAY 1\nscenario %s\nproperty %s\nseed %llu\nclass %s\ndetail %s\nhash %016llx\n", scen.c_str(), prop.c_str(), (unsigned long long)seed, v.cls.c_str(), jesc(v.detail).c_str(), (unsigned long long)sc.hash);
    static const char* nm[NTAPES] = {"W", "F", "S"};
    for (int i = 0; i < NTAPES; i++) { fprintf(f, "tape %s %zu", nm[i], t[i].size()); for (uint32_t x : t[i]) fprintf(f, " %u", x); fprintf(f, "\n"); }
    fprintf(f, "PLAN\n%s\nTRACE\n", sc.describe.c_str());
    fwrite(g_sh->trace, 1, std::min<uint32_t>(g_sh->ntrace, 60000), f);
    fprintf(f, "\nEND\n");
    fclose(f); return true;
}
static bool read_replay(const char* path, std::string& scen, std::string& prop, std::string& cls, uint64_t& seed, uint64_t& hash, std::vector<uint32_t> t[NTAPES]) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    char tag[64], val[512]; bool ok = false;
    if (fscanf(f, "SIMREPLAY %63s ", val) != 1) { fclose(f); return false; }
    while (fscanf(f, "%63s", tag) == 1) {
        if (!strcmp(tag, "tape")) {
            char nm[8]; size_t n; if (fscanf(f, "%7s %zu", nm, &n) != 2) break;
            int i = nm[0] == 'W' ? 0 : nm[0] == 'F' ? 1 : 2; t[i].clear();
            for (size_t k = 0; k < n; k++) { unsigned x; if (fscanf(f, "%u", &x) != 1) break; t[i].push_back(x); }
        } else if (!strcmp(tag, "PLAN")) { ok = true; break; }
        else {
            std::string rest; int c; while ((c = fgetc(f)) == ' ') {} while (c != '\n' && c != EOF) { rest += (char)c; c = fgetc(f); }
            if (!strcmp(tag, "scenario")) scen = rest; else if (!strcmp(tag, "property")) prop = rest; else if (!strcmp(tag, "class")) cls = rest;
            else if (!strcmp(tag, "seed")) seed = strtoull(rest.c_str(), 0, 10); else if (!strcmp(tag, "hash")) hash = strtoull(rest.c_str(), 0, 16);
        }
    }
    fclose(f); return ok;
}

int main(int argc, char** argv) {
    if (argc < 2) { fprintf(stderr, "usage: simcandy run|one|shrink|replay ...\n"); return 2; }
    core_init();
    std::string mode = argv[1];
    if (mode == "run") { // run SCEN PROP base start stride count time_limit sigfile [deadline-unix ignored]
        std::string scen = argv[2], prop = argv[3];
        uint64_t base = strtoull(argv[4], 0, 10), start = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10), count = strtoull(argv[7], 0, 10);
        double limit = atof(argv[8]); const char* sigfile = argv[9];
        Scenario* sc = make_scenario(scen); if (!sc) { fprintf(stderr, "no scenario\n"); return 2; }
        double t0 = wall(); uint64_t done = 0, errors = 0, nontriv = 0, runs = 0, steps = 0; double vt = 0; std::set<uint64_t> sigs, nsigs; std::string errmsg;
        std::vector<std::string> samples; std::map<std::string, uint64_t> other;
        bool viol = false;
        for (uint64_t i = start; done < count && wall() - t0 < limit; i += stride) {
            uint64_t seed = mix64(base * 1000003ull + i) >> 16;
            exec_seed(*sc, seed);
            done++; runs += sc->runs; steps += sc->steps; vt += (double)sc->vtime * 1e-9;
            if (getenv("SIM_TRACE_RUNS")) fprintf(stderr, "RUN %llu steps %llu t=%.3f %s\n", (unsigned long long)seed, (unsigned long long)sc->steps, wall() - t0, clip(sc->describe.substr(0, sc->describe.find('\n')), 300).c_str());
            if (sc->error) { errors++; errmsg = sc->error_msg + " seed " + std::to_string(seed); continue; }
            sigs.insert(sc->sig); if (sc->nontrivial) { nontriv++; nsigs.insert(sc->sig); }
            if (samples.size() < 3 && sc->nontrivial && done % 7 == 3) samples.push_back("seed=" + std::to_string(seed) + " " + clip(sc->describe, 300));
            for (auto& v : sc->violations) if (v.prop != prop) other[v.prop + ":" + v.cls]++;
            if (const Violation* v = find_violation(*sc, prop)) {
                printf("VIOL %llu %016llx %s %s\n", (unsigned long long)seed, (unsigned long long)sc->hash, v->cls.c_str(), jesc(v->detail).c_str()); fflush(stdout);
                viol = true;
                if (!getenv("SIM_KEEPGOING")) break;
            }
        }
        FILE* sf = fopen(sigfile, "wb"); if (sf) { for (uint64_t s : nsigs) fwrite(&s, 8, 1, sf); fclose(sf); }
        printf("STATS {\"seeds\":%llu,\"runs\":%llu,\"errors\":%llu,\"error\":\"%s\",\"nontrivial\":%llu,\"distinct\":%zu,\"distinct_nontrivial\":%zu,\"steps\":%llu,\"vtime_s\":%.3f,\"wall\":%.2f,\"counters\":{",
               (unsigned long long)done, (unsigned long long)runs, (unsigned long long)errors, jesc(errmsg).c_str(), (unsigned long long)nontriv, sigs.size(), nsigs.size(), (unsigned long long)steps, vt, wall() - t0);
        bool first = true; for (auto& k : sc->counters) { printf("%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
        printf("},\"other\":{"); first = true; for (auto& k : other) { printf("%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
        printf("},\"samples\":["); first = true; for (auto& s : samples) { printf("%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
        printf("]}\n"); fflush(stdout);
        return viol ? 1 : 0;
    }
    if (mode == "one") { // one SCEN PROP seed [verbose]
        Scenario* sc = make_scenario(argv[2]); uint64_t seed = strtoull(argv[4], 0, 10);
        exec_seed(*sc, seed);
        uint64_t h1 = sc->hash; 
        printf("HASH %016llx steps %llu error %d %s\n", (unsigned long long)h1, (unsigned long long)sc->steps, sc->error, sc->error_msg.c_str());
        for (auto& v : sc->violations) printf("VIOL %s %s %s\n", v.prop.c_str(), v.cls.c_str(), jesc(v.detail).c_str());
        if (argc > 5) { printf("PLAN %s\nTRACE\n", sc->describe.c_str()); fwrite(g_sh->trace, 1, g_sh->ntrace, stdout); }
        return 0;
    }
    if (mode == "hashes") { // hashes SCEN base start stride count
        Scenario* sc = make_scenario(argv[2]); uint64_t base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), stride = strtoull(argv[5], 0, 10), count = strtoull(argv[6], 0, 10);
        for (uint64_t k = 0, i = start; k < count; k++, i += stride) { uint64_t seed = mix64(base * 1000003ull + i) >> 16; exec_seed(*sc, seed); printf("H %llu %016llx\n", (unsigned long long)seed, (unsigned long long)sc->hash); }
        return 0;
    }
    if (mode == "shrink") { // shrink SCEN PROP seed outfile budget_s
        std::string scen = argv[2], prop = argv[3]; uint64_t seed = strtoull(argv[4], 0, 10); const char* out = argv[5]; double budget = atof(argv[6]);
        Scenario* sc = make_scenario(scen);
        exec_seed(*sc, seed);
        const Violation* v = find_violation(*sc, prop);
        if (!v) { printf("NOVIOL\n"); return 3; }
        std::string cls = v->cls;
        uint64_t h = sc->hash; exec_seed(*sc, seed);
        if (sc->hash != h || !find_violation(*sc, prop)) { printf("NONDET\n"); return 3; }
        std::vector<uint32_t> best[NTAPES], cand[NTAPES]; get_tapes(best);
        double t0 = wall(); unsigned tries = 0;
        auto fails = [&](std::vector<uint32_t> t[NTAPES]) -> bool {
            tries++; exec_tapes(*sc, t);
            if (sc->error) return false;
            for (auto& x : sc->violations) if ((x.prop == prop || prop == "*") && x.cls == cls) return true;
            return false;
        };
        auto better = [&](std::vector<uint32_t> t[NTAPES]) -> bool { if (!fails(t)) return false; std::vector<uint32_t> got[NTAPES]; get_tapes(got);
            size_t a = 0, b = 0; uint64_t sa = 0, sb = 0; for (int i = 0; i < NTAPES; i++) { a += got[i].size(); b += best[i].size(); for (auto x : got[i]) sa += x; for (auto x : best[i]) sb += x; }
            if (a < b || (a == b && sa < sb)) { for (int i = 0; i < NTAPES; i++) best[i] = got[i]; return true; } return false; };
        bool progress = true;
        // does the violation survive replay from tapes at all?
        for (int i = 0; i < NTAPES; i++) cand[i] = best[i];
        if (!fails(cand)) { printf("NOREPLAY\n"); return 3; }
        while (progress && wall() - t0 < budget) {
            progress = false;
            static const int order[3] = {2, 1, 0};
            for (int oi = 0; oi < 3; oi++) {
                int k = order[oi];
                // truncate tails, delete chunks, zero chunks
                for (size_t len = best[k].size(); len >= 1 && wall() - t0 < budget; len = len == 1 ? 0 : (len + 1) / 2) {
                    for (size_t p = 0; p < best[k].size() && wall() - t0 < budget;) {
                        for (int i = 0; i < NTAPES; i++) cand[i] = best[i];
                        size_t e = std::min(cand[k].size(), p + len);
                        cand[k].erase(cand[k].begin() + (long)p, cand[k].begin() + (long)e);
                        if (better(cand)) { progress = true; continue; }
                        for (int i = 0; i < NTAPES; i++) cand[i] = best[i];
                        bool any = false; for (size_t q = p; q < e; q++) { if (cand[k][q]) any = true; cand[k][q] = 0; }
                        if (any && better(cand)) progress = true;
                        p += len;
                    }
                    if (len == 1) break;
                }
                for (size_t p = 0; p < best[k].size() && p < 400 && wall() - t0 < budget; p++) {
                    for (uint32_t nv : {0u, best[k][p] / 2, best[k][p] ? best[k][p] - 1 : 0u}) {
                        if (p >= best[k].size() || nv >= best[k][p]) continue;
                        for (int i = 0; i < NTAPES; i++) cand[i] = best[i];
                        cand[k][p] = nv;
                        if (better(cand)) { progress = true; break; }
                    }
                }
            }
        }
        exec_tapes(*sc, best);
        for (auto& x : sc->violations) if ((x.prop == prop || prop == "*") && x.cls == cls) {
            write_replay(out, scen, prop, seed, *sc, x, best);
            printf("SHRUNK tries %u W %zu F %zu S %zu class %s detail %s\n", tries, best[0].size(), best[1].size(), best[2].size(), cls.c_str(), jesc(x.detail).c_str());
            return 0;
        }
        printf("LOST\n"); return 3;
    }
    if (mode == "replay") { // replay FILE : exit 1 and prints the violation when it reproduces exactly
        std::string scen, prop, cls; uint64_t seed = 0, hash = 0; std::vector<uint32_t> t[NTAPES];
        if (!read_replay(argv[2], scen, prop, cls, seed, hash, t)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        Scenario* sc = make_scenario(scen); if (!sc) return 2;
        exec_tapes(*sc, t);
        bool same = sc->hash == hash;
        for (auto& x : sc->violations) if ((x.prop == prop || prop == "*") && x.cls == cls) { printf("REPRODUCED %s hash %s class %s detail %s\n", prop.c_str(), same ? "same" : "differs", cls.c_str(), jesc(x.detail).c_str()); 
            if (argc > 3) { printf("PLAN %s\nTRACE\n", sc->describe.c_str()); fwrite(g_sh->trace, 1, g_sh->ntrace, stdout); }
            return 1; }
        printf("NOT-REPRODUCED hash %s\n", same ? "same" : "differs");
        for (auto& x : sc->violations) printf("  other: %s %s %s\n", x.prop.c_str(), x.cls.c_str(), jesc(x.detail).c_str());
        return 0;
    }
    return 2;
}
