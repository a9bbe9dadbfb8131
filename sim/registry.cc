#include "scenario.h"
// every scenario lives in its own file; a scenario whose file does not compile against the working tree is left out
extern Scenario* make_cli() __attribute__((weak)); extern Scenario* make_cli_limits() __attribute__((weak));
extern Scenario* make_ipasir() __attribute__((weak)); extern Scenario* make_ipasir_big() __attribute__((weak));
extern Scenario* make_portfolio() __attribute__((weak));
extern Scenario* make_isolation() __attribute__((weak));
extern Scenario* make_proof() __attribute__((weak));
extern Scenario* make_ingest() __attribute__((weak)); extern Scenario* make_badinput() __attribute__((weak));
extern Scenario* make_checker() __attribute__((weak));
extern Scenario* make_gates() __attribute__((weak)); extern Scenario* make_minimize() __attribute__((weak)); extern Scenario* make_repro() __attribute__((weak)); extern Scenario* make_aig() __attribute__((weak)); extern Scenario* make_rsim() __attribute__((weak)); extern Scenario* make_options() __attribute__((weak)); extern Scenario* make_refine() __attribute__((weak));
Scenario* make_scenario(const std::string& n) {
    struct E { const char* name; Scenario* (*fn)(); };
    static const E table[] = {{"cli", make_cli}, {"limits", make_cli_limits}, {"ipasir", make_ipasir}, {"ipasirbig", make_ipasir_big}, {"portfolio", make_portfolio}, {"isolation", make_isolation}, {"proof", make_proof}, {"checker", make_checker}, {"ingest", make_ingest}, {"badinput", make_badinput}, {"gates", make_gates}, {"minimize", make_minimize}, {"repro", make_repro}, {"aig", make_aig}, {"rsim", make_rsim}, {"refine", make_refine}, {"options", make_options}};
    for (auto& e : table) if (n == e.name) return e.fn ? e.fn() : nullptr;
    return nullptr;
}
