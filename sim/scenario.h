#pragma once
#include "core.h"
#include "oracle.h"
#include <map>
#include <set>
#include <string>
#include <vector>

struct Violation { std::string prop, cls, detail; };

struct Scenario {
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> counters;      // accumulated over runs ("probes")
    std::vector<std::string> samples;
    uint64_t hash = 0;                             // per-seed hash over everything observed
    uint64_t sig = 0;                              // per-seed signature (distinct behaviours)
    bool nontrivial = false;
    uint64_t steps = 0, vtime = 0; unsigned runs = 0;
    bool error = false; std::string error_msg;     // simulator-level problem (never a violation)
    std::string describe;                          // human-readable plan
    virtual ~Scenario() {}
    virtual void execute() = 0;                    // draws the plan, runs the simulation(s), checks
    void reset() { violations.clear(); hash = 0; sig = 0; nontrivial = false; steps = 0; vtime = 0; runs = 0; error = false; error_msg.clear(); describe.clear(); }
    void violate(const char* prop, const std::string& cls, const std::string& detail) { violations.push_back({prop, cls, detail}); }
    void count(const std::string& k, uint64_t n = 1) { if (n) counters[k] += n; }
    // runs a body in the simulator and folds the results into the statistics
    sim::RunResult go(sim::BodyFn body, void* arg, double host_timeout = 60);
};
Scenario* make_scenario(const std::string& name);
uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull);

// helpers shared by scenarios
std::string clip(const std::string& s, size_t n = 400);
std::vector<std::string> lines_with(const std::string& out, const std::string& prefix);
void gen_solver_options(std::vector<std::string>& a, bool cli, bool restarts); // swarm configuration of the solver
void deep_options(std::vector<std::string>& a);                                // overrides: restart, reduce and simplify often
void call_parse_options(const std::vector<std::string>& a);   // in the child: set options through the public parser
int call_candy_main(const std::vector<std::string>& a);       // in the child
std::string join(const std::vector<std::string>& v);
