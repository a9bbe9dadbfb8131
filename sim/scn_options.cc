// Command lines: options in any order, number and spelling, with values in and out of their ranges, malformed values, unknown
// flags and file names. Oracle: an executable reference parser; every option has to end up with the value given last, the rest
// has to be left as file names, and what is not a valid setting has to be refused before anything is solved.
#include "scenario.h"
#include <climits>
#include <cmath>
#include <cstring>
#include "candy/frontend/CLIOptions.h"
#include "candy/utils/Options.h"
using namespace sim;

namespace {
struct Opt { int type; const char* name; void* p; double lo, hi; bool loi, hii; };   // 0 flag, 1 integer, 2 real, 3 text
const Opt T[] = {
    {1, "threads", &Candy::ParallelOptions::opt_threads, 1, 16, true, true},
    {1, "thread-initialization-delay", &Candy::ParallelOptions::opt_thread_initialization_delay, 10, INT32_MAX, true, true},
    {0, "static-propagate", &Candy::ParallelOptions::opt_static_propagate, 0, 0, true, true},
    {0, "static-database", &Candy::ParallelOptions::opt_static_database, 0, 0, true, true},
    {1, "static_database_size_bound", &Candy::ParallelOptions::opt_static_database_size_bound, 0, INT16_MAX, true, true},
    {1, "persistentLBD", &Candy::ClauseDatabaseOptions::opt_persistent_lbd, 0, INT8_MAX, true, true},
    {0, "recalculate-lbd", &Candy::ClauseDatabaseOptions::opt_recalculate_lbd, 0, 0, true, true},
    {0, "keep-median-lbd", &Candy::ClauseDatabaseOptions::opt_keep_median_lbd, 0, 0, true, true},
    {1, "firstReduceDB", &Candy::ClauseDatabaseOptions::opt_first_reduce_db, 0, INT16_MAX, true, true},
    {1, "incReduceDB", &Candy::ClauseDatabaseOptions::opt_inc_reduce_db, 0, INT16_MAX, true, true},
    {0, "minimize", &Candy::MinimizerOptions::do_minimize, 0, 0, true, true},
    {0, "minimize-pruned", &Candy::MinimizerOptions::minimize_pruned, 0, 0, true, true},
    {0, "minimize-minimal", &Candy::MinimizerOptions::minimize_minimal, 0, 0, true, true},
    {0, "minimize-project", &Candy::MinimizerOptions::minimize_project, 0, 0, true, true},
    {0, "test-model", &Candy::TestingOptions::test_model, 0, 0, true, true},
    {0, "test-proof", &Candy::TestingOptions::test_proof, 0, 0, true, true},
    {1, "test-limit", &Candy::TestingOptions::test_limit, 0, 1000, true, true},
    {1, "verb", &Candy::SolverOptions::verb, 0, 2, true, true},
    {0, "model", &Candy::SolverOptions::mod, 0, 0, true, true},
    {3, "certified-output", &Candy::SolverOptions::opt_certified_file, 0, 0, true, true},
    {0, "gate-stats", &Candy::SolverOptions::gate_stats, 0, 0, true, true},
    {1, "memory-limit", &Candy::SolverOptions::memory_limit, 0, INT32_MAX, true, true},
    {1, "time-limit", &Candy::SolverOptions::time_limit, 0, INT32_MAX, true, true},
    {2, "K", &Candy::SolverOptions::opt_K, 0, 1, false, false},
    {2, "R", &Candy::SolverOptions::opt_R, 1, 5, false, false},
    {1, "szLBDQueue", &Candy::SolverOptions::opt_size_lbd_queue, 10, INT16_MAX, true, true},
    {1, "szTrailQueue", &Candy::SolverOptions::opt_size_trail_queue, 10, INT16_MAX, true, true},
    {2, "var-decay", &Candy::SolverOptions::opt_vsids_var_decay, 0, 1, false, false},
    {2, "max-var-decay", &Candy::SolverOptions::opt_vsids_max_var_decay, 0, 1, false, false},
    {0, "extra-bump", &Candy::SolverOptions::opt_vsids_extra_bump, 0, 0, true, true},
    {0, "use-vsidsc", &Candy::SolverOptions::opt_use_vsidsc, 0, 0, true, true},
    {1, "vsidsc-mult", &Candy::SolverOptions::opt_vsidsc_mult, 1, INT16_MAX, true, true},
    {0, "vsidsc-bump", &Candy::SolverOptions::opt_vsidsc_bump, 0, 0, true, true},
    {0, "vsidsc-lwcc", &Candy::SolverOptions::opt_vsidsc_scope, 0, 0, true, true},
    {2, "vsidsc-sample-size", &Candy::SolverOptions::opt_vsidsc_samplesize, 0.0, 1.0, false, true},
    {2, "vsidsc-sample-size-decay", &Candy::SolverOptions::opt_vsidsc_samplesize_decay, 0.0, 1.0, false, true},
    {2, "vsidsc-dbsize-recalc", &Candy::SolverOptions::opt_vsidsc_dbsize_recalc, 0.0, 10.0, true, true},
    {0, "vsidsc-debug", &Candy::SolverOptions::opt_vsidsc_debug, 0, 0, true, true},
    {0, "use-lrb", &Candy::SolverOptions::opt_use_lrb, 0, 0, true, true},
    {2, "lrb-step-size", &Candy::SolverOptions::opt_lrb_step_size, 0, 1, false, false},
    {2, "lrb-min-step-size", &Candy::SolverOptions::opt_lrb_min_step_size, 0, 1, false, false},
    {0, "sort-variables", &Candy::SolverOptions::opt_sort_variables, 0, 0, true, true},
    {0, "pre", &Candy::SolverOptions::opt_preprocessing, 0, 0, true, true},
    {1, "inprocessing", &Candy::SolverOptions::opt_inprocessing, INT32_MIN, INT32_MAX, true, true},
    {3, "sonification-host", &Candy::SonificationOptions::host, 0, 0, true, true},
    {1, "sonification-port", &Candy::SonificationOptions::port, 1, 99999, true, true},
    {1, "sonification-delay", &Candy::SonificationOptions::delay, 0, INT16_MAX, true, true},
    {1, "cl-lim", &Candy::VariableEliminationOptions::opt_clause_lim, 0, INT32_MAX, true, true},
    {0, "elim", &Candy::VariableEliminationOptions::opt_use_elim, 0, 0, true, true},
    {1, "gate-recognition-method", &Candy::GateRecognitionOptions::method, 0, 30, true, true},
    {1, "gate-tries", &Candy::GateRecognitionOptions::tries, 0, INT32_MAX, true, true},
    {1, "gate-timeout", &Candy::GateRecognitionOptions::timeout, 0, INT32_MAX, true, true},
    {1, "rs-rounds", &Candy::RandomSimulationOptions::opt_rs_nrounds, 1, INT32_MAX, true, true},
    {0, "rs-abort-by-rrat", &Candy::RandomSimulationOptions::opt_rs_abortbyrrat, 0, 0, true, true},
    {2, "rs-rrat", &Candy::RandomSimulationOptions::opt_rs_rrat, 0.0, 1.0, true, false},
    {1, "rs-max-conj-size", &Candy::RandomSimulationOptions::opt_rs_filterConjBySize, 0, INT32_MAX, true, true},
    {0, "rs-remove-backbone-conj", &Candy::RandomSimulationOptions::opt_rs_removeBackboneConj, 0, 0, true, true},
    {0, "rs-only-nonmono-gates", &Candy::RandomSimulationOptions::opt_rs_filterGatesByNonmono, 0, 0, true, true},
    {1, "rs-time-limit", &Candy::RandomSimulationOptions::opt_rs_ppTimeLimit, -1, INT32_MAX, true, true},
    {0, "rsil-enable", &Candy::RSILOptions::opt_rsil_enable, 0, 0, true, true},
    {3, "rsil-mode", &Candy::RSILOptions::opt_rsil_mode, 0, 0, true, true},
    {1, "advice-size", &Candy::RSILOptions::opt_rsil_advice_size, 2, 3, true, true},
    {1, "rsil-van-halflife", &Candy::RSILOptions::opt_rsil_vanHalfLife, 1, INT32_MAX, true, true},
    {1, "rsil-imp-budgets", &Candy::RSILOptions::opt_rsil_impBudgets, 1, INT32_MAX, true, true},
    {1, "rsil-filter-by-input-dependencies", &Candy::RSILOptions::opt_rsil_filterByInputDeps, 0, INT32_MAX, true, true},
    {0, "rsil-filter-only-backbone", &Candy::RSILOptions::opt_rsil_filterOnlyBackbone, 0, 0, true, true},
    {2, "rsil-min-gate-frac", &Candy::RSILOptions::opt_rsil_minGateFraction, 0.0, 1.0, true, true},
    {0, "rsil-only-miters", &Candy::RSILOptions::opt_rsil_onlyMiters, 0, 0, true, true},
    {0, "rsar-enable", &Candy::RSAROptions::opt_rsar_enable, 0, 0, true, true},
    {1, "rsar-max-refinements", &Candy::RSAROptions::opt_rsar_maxRefinementSteps, 1, INT32_MAX, true, true},
    {3, "rsar-heur-idc", &Candy::RSAROptions::opt_rsar_inputDepCountHeurConf, 0, 0, true, true},
    {1, "rsar-min-gatecount", &Candy::RSAROptions::opt_rsar_minGateCount, 1, INT32_MAX, true, true},
};
const int NT = sizeof T / sizeof *T;
struct Value { long long i; double d; std::string s; bool operator==(const Value& o) const { return i == o.i && d == o.d && s == o.s; } };
Value current(int k) {
    Value v{0, 0, ""};
    if (T[k].type == 0) v.i = (bool)*(const Candy::BoolOption*)T[k].p;
    if (T[k].type == 1) v.i = (int32_t)*(const Candy::IntOption*)T[k].p;
    if (T[k].type == 2) v.d = (double)*(const Candy::DoubleOption*)T[k].p;
    if (T[k].type == 3) v.s = (const char*)*(const Candy::StringOption*)T[k].p;
    return v;
}
bool number(const std::string& s, bool real) {      // what counts as a number here: decimal notation without spaces
    size_t i = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t d = 0; while (i < s.size() && isdigit(s[i])) i++, d++;
    if (real && i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) i++, d++; }
    if (!d) return false;
    if (real && i < s.size() && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < s.size() && (s[i] == '-' || s[i] == '+')) i++; size_t e = 0; while (i < s.size() && isdigit(s[i])) i++, e++; if (!e) return false; }
    return i == s.size();
}
bool integer(const std::string& s, long long& v) { // saturates
    if (!number(s, false)) return false; bool neg = s[0] == '-'; v = 0; for (char c : s) if (isdigit(c)) { v = v * 10 + (c - '0'); if (v > (1ll << 50)) v = 1ll << 50; } if (neg) v = -v; return true;
}
std::string fmt(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
}

struct OptionsScenario : Scenario {
    std::vector<std::string> args; std::map<int, Value> want; std::vector<std::string> rest; bool refuse, help, strict, loose; std::string why; Formula f;
    static void main_body(void* p) { int rc = call_candy_main(((OptionsScenario*)p)->args); exit(rc); }
    static void api_body(void* p) { ((OptionsScenario*)p)->api(); }
    void api() {
        std::vector<Value> def; for (int k = 0; k < NT; k++) def.push_back(current(k));
        std::vector<std::vector<char>> store; std::vector<char*> argv; std::vector<std::string> a = args; a.insert(a.begin(), "candy");
        for (auto& x : a) { store.emplace_back(x.begin(), x.end()); store.back().push_back(0); } for (auto& x : store) argv.push_back(x.data()); argv.push_back(nullptr);
        int argc = (int)a.size(); Candy::parseOptions(argc, argv.data(), strict);
        int bad = 0, at = 0;
        for (int k = 0; k < NT && !bad; k++) { Value e = want.count(k) ? want[k] : def[k]; if (!(current(k) == e)) { bad = want.count(k) ? 1 : 2; at = k; } }
        if (!bad) { if (argc != (int)rest.size() + 1) { bad = 3; at = argc - 1; } else for (size_t i = 0; i < rest.size(); i++) if (rest[i] != argv[i + 1]) { bad = 4; at = (int)i; } }
        log_i(bad); log_i(at); log_i(4711);
    }
    // the reference: what the command line means
    void meaning() {
        want.clear(); rest.clear(); refuse = help = loose = false; why.clear();
        for (auto& a : args) {
            if (a.compare(0, 6, "--help") == 0) { help = true; return; }
            int hit = -1; bool ok = false; std::string val;
            for (int k = 0; k < NT && hit < 0; k++) {
                std::string n = T[k].name;
                if (T[k].type == 0) { if (a == "-" + n || a == "-no-" + n) { hit = k; ok = true; want[k] = Value{a == "-" + n, 0, ""}; } continue; }
                if (a.compare(0, n.size() + 2, "-" + n + "=") != 0) continue;
                hit = k; val = a.substr(n.size() + 2);
                if (T[k].type == 3) { ok = true; want[k] = Value{0, 0, val}; }
                if (T[k].type == 1) { long long v; ok = integer(val, v) && (double)v >= T[k].lo && (double)v <= T[k].hi; if (ok) want[k] = Value{v, 0, ""}; }
                if (T[k].type == 2) { ok = number(val, true); double d = ok ? strtod(val.c_str(), nullptr) : 0; ok = ok && (T[k].loi ? d >= T[k].lo : d > T[k].lo) && (T[k].hii ? d <= T[k].hi : d < T[k].hi); if (ok) want[k] = Value{0, d, ""}; }
            }
            if (hit >= 0) { if (!ok) { loose = !strict; refuse = true; why = "'" + clip(a, 80) + "' is no valid setting"; return; } continue; }
            if (a[0] == '-' && strict) { refuse = true; why = "'" + clip(a, 80) + "' is no option"; return; }
            rest.push_back(a);
        }
    }
    std::string junk() { static const char* j[] = {"", "abc", "5x", "x5", "--1", "1..2", "nan", "inf", "-inf", "1e", "0,5", "true", "1 2", "infinity", "+", "."}; return j[draw(W, 16)]; }
    std::string one(int bad) { // bad: 0 a valid setting
        int k = (int)draw(W, NT); const Opt& o = T[k]; std::string n = std::string("-") + o.name;
        if (bad == 2) switch (draw(W, 8)) { // not an option at all
            case 0: return "-" + n; case 1: return n + "x"; case 2: return n.substr(0, n.size() - 1); case 3: return o.type ? n : n + "=1"; case 4: return "-no" + n.substr(1); case 5: return "-no-no" + n; case 6: { std::string m = n; m[1] = (char)(isupper(m[1]) ? tolower(m[1]) : toupper(m[1])); return m + (o.type ? "=1" : ""); } default: return "-asymm"; }
        if (o.type == 0) return draw(W, 2) ? n : std::string("-no-") + o.name;
        n += "=";
        if (o.type == 3) { std::string s; unsigned len = draw(W, 3) ? draw(W, 20) : draw(W, 2) ? range(W, 250, 260) : range(W, 100, 700); for (unsigned i = 0; i < len; i++) s += (char)(draw(W, 12) ? 'a' + (int)draw(W, 26) : " =-/.\"%"[draw(W, 7)]); return n + s; }
        if (o.type == 1) { long long lo = (long long)o.lo, hi = (long long)o.hi;
            if (bad) switch (draw(W, 6)) { case 0: return n + std::to_string(lo - 1 - (long long)draw(W, 3)); case 1: return n + std::to_string(hi + 1 + (long long)draw(W, 3)); case 2: return n + std::to_string((1ll << 32) * (1 + (long long)draw(W, 3)) + lo + (long long)draw(W, 9)); case 3: return n + (draw(W, 2) ? "99999999999999999999" : "-99999999999999999999"); case 4: return n + std::to_string(lo) + ".5"; default: return n + junk(); }
            long long v = draw(W, 3) == 0 ? lo + (long long)draw(W, 2) : draw(W, 2) ? hi - (long long)draw(W, 2) : lo + (long long)(((uint64_t)draw(W, 1u << 30) << 3 | draw(W, 8)) % (uint64_t)(hi - lo + 1)); if (v < lo) v = lo; if (v > hi) v = hi;
            std::string s = std::to_string(v); if (draw(W, 8) == 7 && v >= 0) s = (draw(W, 2) ? "+" : "00") + s; return n + s; }
        if (bad) switch (draw(W, 6)) { case 0: return n + fmt(o.loi ? o.lo - 0.25 : o.lo); case 1: return n + fmt(o.hii ? o.hi + 0.25 : o.hi); case 2: return n + (draw(W, 2) ? "1e999" : "-1e999"); case 3: return n + std::to_string(1000 + draw(W, 1000)); case 4: return n + "-" + fmt(0.5 + draw(W, 9)); default: return n + junk(); }
        double d = o.lo + (o.hi - o.lo) * (1 + draw(W, 998)) / 1000.0; if (draw(W, 6) == 5) { if (o.loi) d = o.lo; } else if (draw(W, 6) == 5 && o.hii) d = o.hi; if (draw(W, 4) == 3) { char b[40]; snprintf(b, sizeof b, "%.3e", d); double q = strtod(b, nullptr); if (q > o.lo && q < o.hi) return n + b; } return n + fmt(d);
    }
    void execute() override {
        args.clear(); count("probe.cases"); const char* P = "C23"; bool prog = draw(W, 3) == 2; strict = prog || draw(W, 8) != 7;
        if (!prog) {
            int n = range(W, 0, 9); for (int i = 0; i < n; i++) { uint32_t z = draw(W, 24); if (z < 17) args.push_back(one(0)); else if (z < 19) { static const char* pos[] = {"x.cnf", "a=b", "x-threads=4", "f--help.cnf", "dir/-model", "no-pre", "threads=4", "K=0.9"}; args.push_back(pos[draw(W, 8)]); } else if (z < 21) args.push_back(one(1)); else if (z < 23) args.push_back(one(2)); else if (draw(W, 2)) args.push_back(draw(W, 2) ? "--help" : "--help-verb"); }
            if (args.size() > 1 && draw(W, 3) == 2) { args.push_back(args[draw(W, (uint32_t)args.size())]); }
            RunConfig& c = g_cfg; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 2); c.max_steps = 20ull * 1000 * 1000; if (c.heap_seed) count("fault.heap_garbage");
            meaning(); std::string how = clip(join(args), 600) + (strict ? "" : " (not strict)"); describe = "options " + join(args) + (strict ? "" : " (not strict)") + (help ? " | help" : refuse ? " | refuse: " + why : ""); nontrivial = !args.empty();
            RunResult r = go(api_body, this); if (error) return; Shared& s = *g_sh; bool done = s.nlog >= 3 && s.log[s.nlog - 1] == 4711;
            if (s.stepcap) { violate(P, "endless", "parsing the options did not end: " + how); return; }
            if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "parsing the options died with signal " + std::to_string(r.sig) + ": " + how); return; }
            if (s.heap_corrupt) { violate(P, "heap-corruption", "heap block overrun: " + how); return; }
            if (loose) { count("end.loose"); return; }        // without strict parsing an invalid setting may be left as a file name
            if (help) { if (done || r.code != 0) violate(P, "help", "help was asked for, but not given: " + how); else count("end.help"); return; }
            if (refuse) { if (done) violate(P, "accepted", "accepted although " + why + ": " + how); else if (r.code == 0) violate(P, "refused-quietly", "stopped with exit code 0 although " + why + ": " + how); else count("end.refused"); return; }
            if (!done) { violate(P, "refused", "valid options were refused (exit " + std::to_string(r.code) + "): " + how); return; }
            int bad = s.log[s.nlog - 3], at = s.log[s.nlog - 2];
            if (bad == 1) violate(P, "value", std::string("option ") + T[at].name + " does not have the value given last: " + how);
            else if (bad == 2) violate(P, "other-option", std::string("option ") + T[at].name + " changed although it was not given: " + how);
            else if (bad) violate(P, "file-names", "wrong file names are left: " + how);
            else { count("end.accepted"); count("probe.options_checked", want.size()); }
            return;
        }
        // the program itself: an invalid command line is refused before anything is read or solved
        f = gen_formula(0); std::string text = to_dimacs(f); set_file(FIN, text); int truth = decide(f);
        static const char* fine[] = {"-model", "-no-model", "-verb=0", "-verb=1", "-verb=2", "-no-pre", "-pre", "-K=0.9", "-use-lrb", "-no-use-lrb", "-sort-variables", "-time-limit=100000", "-memory-limit=0", "-szLBDQueue=10", "-threads=1", "-cl-lim=3"};
        int n = range(W, 0, 4); for (int i = 0; i < n; i++) args.push_back(fine[draw(W, 16)]);
        if (draw(W, 4) != 3) { std::string b; if (draw(W, 3) == 2) { static const char* nasty[] = {"-threads=0", "-threads=-1", "-threads=x", "-threads=17", "-szLBDQueue=0", "-szTrailQueue=0", "-K=-1", "-R=abc", "-firstReduceDB=-5", "-incReduceDB=-1", "-time-limit=", "-memory-limit=12MB", "-var-decay=0", "-verb=", "-gate-tries=-1", "-test-limit=x"}; b = nasty[draw(W, 16)]; } else b = one(1 + (int)draw(W, 2)); args.insert(args.begin() + draw(W, (uint32_t)args.size() + 1), b); }
        args.insert(args.begin() + draw(W, (uint32_t)args.size() + 1), file_path(FIN));
        RunConfig& c = g_cfg; static const uint64_t SPEED[] = {100, 10000, 1000000}; c.ns_per_step = SPEED[draw(F, 3)]; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 6) == 5; c.max_steps = 300ull * 1000 * 1000;
        meaning(); bool files = rest.size() == 1; std::string how = clip(join(args), 600); describe = "candy " + join(args) + (refuse ? " | refuse: " + why : "") + " | " + f.family + " n=" + std::to_string(f.nvars) + " m=" + std::to_string(f.clauses.size()); if (text.size() < 1500) describe += "\n" + text; nontrivial = true;
        RunResult r = go(main_body, this); if (error) return; Shared& s = *g_sh; std::vector<std::string> st = lines_with(r.out, "s ");
        if (refuse) {
            if (s.stepcap) { violate(P, "endless", "runs on and on although " + why + ": candy " + how); return; }
            if (!st.empty()) { violate(P, "accepted", "prints '" + st[0] + "' although " + why + ": candy " + how); return; }
            if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "died with signal " + std::to_string(r.sig) + " although it only had to refuse: candy " + how); return; }
            if (r.code == 0) { violate(P, "refused-quietly", "stopped with exit code 0 although " + why + ": candy " + how); return; }
            count("end.program_refused"); return; }
        bool stats = false; for (auto& a : args) if (a == "-gate-stats") stats = true;
        if (!files || stats || s.stepcap) { count("end.budget"); return; }
        std::string expect = truth == 10 ? "s SATISFIABLE" : truth == 20 ? "s UNSATISFIABLE" : "";
        if (r.sig || st.size() != 1) { violate(P, "no-answer", "no answer for valid options: candy " + how); return; }
        if (!expect.empty() && st[0] != expect) { violate(P, "wrong-answer", "prints '" + st[0] + "': candy " + how); return; }
        count("end.program_answered");
    }
};
Scenario* make_options() { return new OptionsScenario(); }
