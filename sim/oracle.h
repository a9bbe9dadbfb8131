// Independent oracles: exact model sets for small formulas, a reference CDCL solver for larger ones,
// a forward DRAT checker, formula generators.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>

struct Formula {
    int nvars = 0;                          // highest variable that may occur
    std::vector<std::vector<int>> clauses;
    std::string family;
    std::vector<int> planted;               // planted solution (literals) if known
    int max_used() const { int m = 0; for (auto& c : clauses) for (int l : c) m = std::max(m, std::abs(l)); return m; }
};
std::string to_dimacs(const Formula& f);

// ---------------------------------------------------------------- exact model sets, n <= 16
struct ModelSet {
    int n; std::vector<uint64_t> w;
    explicit ModelSet(int n_);
    void add_clause(const std::vector<int>& c);
    void add_lit(int l) { add_clause(std::vector<int>(1, l)); }
    bool empty() const;
    bool implies(const std::vector<int>& c) const;   // every model satisfies c
    bool contains(uint32_t assignment) const { return (w[assignment >> 6] >> (assignment & 63)) & 1; }
    bool operator==(const ModelSet& o) const { return n == o.n && w == o.w; }
};

// ---------------------------------------------------------------- reference CDCL
struct RefSolver {
    // returns 10 (model filled), 20, or 0 when the conflict budget is exhausted
    static int solve(int nvars, const std::vector<std::vector<int>>& cls, const std::vector<int>& assumptions,
                     std::vector<signed char>& model, long conflict_budget);
};
bool satisfies(const std::vector<std::vector<int>>& cls, const std::vector<signed char>& model); // model[v] in {-1,1}
// status of a formula: 10/20/0(unknown); cached brute force when small
int decide(const Formula& f, long budget = 200000);

// ---------------------------------------------------------------- DRAT
struct DratResult { bool ok; bool refuted; int bad_line; std::string why; int lemmas, deletions; bool torn; };
// checks every complete line of a textual DRAT proof
DratResult drat_check(const Formula& f, const std::string& proof, bool allow_torn_tail);

// ---------------------------------------------------------------- generators (draw from the workload tape)
Formula gen_formula(int size_hint);      // 0 tiny (brute force), 1 medium, 2 hard
Formula gen_deep();                      // needs several restarts
Formula gen_wide();                      // clauses of more than 65535 literals
void maybe_sparse(Formula& f);           // rarely: variables with gaps
Formula gen_small();                     // <= 12 vars
Formula gen_random(int n, int m, int kmin, int kmax);
Formula gen_circuit(int ninputs, int ngates, bool miter);
Formula gen_php(int holes, int pigeons);
Formula gen_parity(int n, bool sat);
