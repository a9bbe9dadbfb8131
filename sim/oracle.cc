#include "oracle.h"
#include "core.h"
#include <cstring>
#include <set>
using namespace sim;

std::string to_dimacs(const Formula& f) {
    std::string s = "p cnf " + std::to_string(f.nvars) + " " + std::to_string(f.clauses.size()) + "\n";
    for (auto& c : f.clauses) { for (int l : c) { s += std::to_string(l); s += ' '; } s += "0\n"; }
    return s;
}

// ------------------------------------------------------------------ ModelSet
static const uint64_t MASK6[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull,
                                  0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
ModelSet::ModelSet(int n_) : n(n_) {
    size_t words = n <= 6 ? 1 : (size_t(1) << (n - 6));
    w.assign(words, ~0ull);
    if (n < 6) w[0] = (1ull << (1u << n)) - 1;
}
void ModelSet::add_clause(const std::vector<int>& c) {
    for (size_t i = 0; i < w.size(); i++) {
        if (!w[i]) continue;
        uint64_t s = 0;
        for (int l : c) {
            int v = std::abs(l) - 1;
            uint64_t m = v < 6 ? MASK6[v] : ((i >> (v - 6)) & 1 ? ~0ull : 0);
            s |= l > 0 ? m : ~m;
            if (s == ~0ull) break;
        }
        w[i] &= s;
    }
}
bool ModelSet::empty() const { for (uint64_t x : w) if (x) return false; return true; }
bool ModelSet::implies(const std::vector<int>& c) const {
    for (size_t i = 0; i < w.size(); i++) {
        if (!w[i]) continue;
        uint64_t s = 0;
        for (int l : c) { int v = std::abs(l) - 1; uint64_t m = v < 6 ? MASK6[v] : ((i >> (v - 6)) & 1 ? ~0ull : 0); s |= l > 0 ? m : ~m; }
        if (w[i] & ~s) return false;
    }
    return true;
}

// ------------------------------------------------------------------ RefSolver: plain CDCL, two watched literals, 1-UIP
namespace {
struct Cdcl {
    int n; std::vector<std::vector<int>> db; std::vector<std::vector<int>> watch; // literal index -> clause ids
    std::vector<signed char> val; std::vector<int> lvl, reason, trail, lim; std::vector<double> act; std::vector<signed char> phase;
    size_t qh = 0; double inc = 1; bool unsat = false;
    static int ix(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
    int value(int l) const { return l > 0 ? val[l] : -val[-l]; }
    explicit Cdcl(int n_) : n(n_), watch(2 * n_ + 2), val(n_ + 1, 0), lvl(n_ + 1, 0), reason(n_ + 1, -1), act(n_ + 1, 0), phase(n_ + 1, -1) {}
    void assign(int l, int r) { int v = std::abs(l); val[v] = l > 0 ? 1 : -1; lvl[v] = (int)lim.size(); reason[v] = r; trail.push_back(l); }
    void cancel(int level) {
        while ((int)lim.size() > level) {
            while ((int)trail.size() > lim.back()) { int v = std::abs(trail.back()); phase[v] = val[v]; val[v] = 0; reason[v] = -1; trail.pop_back(); }
            lim.pop_back();
        }
        if (qh > trail.size()) qh = trail.size();
    }
    void add(std::vector<int> c) {
        std::sort(c.begin(), c.end()); c.erase(std::unique(c.begin(), c.end()), c.end());
        for (int l : c) if (std::binary_search(c.begin(), c.end(), -l)) return;
        if (c.empty()) { unsat = true; return; }
        if (c.size() == 1) { if (value(c[0]) < 0) unsat = true; else if (value(c[0]) == 0) assign(c[0], -1); return; }
        watch[ix(c[0])].push_back((int)db.size()); watch[ix(c[1])].push_back((int)db.size()); db.push_back(c);
    }
    int propagate() {
        while (qh < trail.size()) {
            int l = -trail[qh++];
            auto& ws = watch[ix(l)]; size_t j = 0;
            for (size_t i = 0; i < ws.size(); i++) {
                int ci = ws[i]; auto& c = db[ci];
                if (c[0] == l) std::swap(c[0], c[1]);
                if (value(c[0]) > 0) { ws[j++] = ci; continue; }
                bool moved = false;
                for (size_t k = 2; k < c.size(); k++) if (value(c[k]) >= 0) { std::swap(c[1], c[k]); watch[ix(c[1])].push_back(ci); moved = true; break; }
                if (moved) continue;
                ws[j++] = ci;
                if (value(c[0]) < 0) { for (i++; i < ws.size(); i++) ws[j++] = ws[i]; ws.resize(j); return ci; }
                assign(c[0], ci);
            }
            ws.resize(j);
        }
        return -1;
    }
    void bump(int v) { if ((act[v] += inc) > 1e100) { for (auto& a : act) a *= 1e-100; inc *= 1e-100; } }
    int solve(const std::vector<int>& as, long budget) {
        if (unsat) return 20;
        if (propagate() >= 0) return 20;
        long conflicts = 0, restart = 100, since = 0;
        std::vector<char> seen(n + 1, 0);
        for (;;) {
            int c = propagate();
            if (c >= 0) {
                if (lim.empty()) return 20;
                if (++conflicts > budget) return 0;
                since++;
                std::vector<int> learnt(1, 0); int cnt = 0, p = 0; size_t idx = trail.size();
                do {
                    for (int q : db[c]) { if (q == p) continue; int v = std::abs(q); if (!seen[v] && lvl[v] > 0) { seen[v] = 1; bump(v); if (lvl[v] >= (int)lim.size()) cnt++; else learnt.push_back(q); } }
                    while (!seen[std::abs(trail[--idx])]) {}
                    p = trail[idx]; c = reason[std::abs(p)]; seen[std::abs(p)] = 0; cnt--;
                } while (cnt > 0);
                learnt[0] = -p;
                int bl = 0; size_t mi = 1;
                for (size_t i = 1; i < learnt.size(); i++) { int v = std::abs(learnt[i]); seen[v] = 0; if (lvl[v] > bl) { bl = lvl[v]; mi = i; } }
                cancel(bl);
                if (learnt.size() > 1) { std::swap(learnt[1], learnt[mi]); int id = (int)db.size(); db.push_back(learnt); watch[ix(learnt[0])].push_back(id); watch[ix(learnt[1])].push_back(id); assign(learnt[0], id); }
                else assign(learnt[0], -1);
                inc /= 0.95;
            } else {
                if (since > restart) { since = 0; restart += 50; cancel(0); continue; }
                int d = 0;
                while (lim.size() < as.size()) {
                    int a = as[lim.size()];
                    if (value(a) > 0) lim.push_back((int)trail.size());
                    else if (value(a) < 0) return 20;
                    else { d = a; break; }
                }
                if (!d) {
                    int bv = 0; for (int v = 1; v <= n; v++) if (!val[v] && (!bv || act[v] > act[bv])) bv = v;
                    if (!bv) return 10;
                    d = phase[bv] > 0 ? bv : -bv;
                }
                lim.push_back((int)trail.size()); assign(d, -1);
            }
        }
    }
};
}
bool satisfies(const std::vector<std::vector<int>>& cls, const std::vector<signed char>& m) {
    for (auto& c : cls) {
        bool ok = false;
        for (int l : c) { int v = std::abs(l); if (v < (int)m.size() && m[v] == (l > 0 ? 1 : -1)) { ok = true; break; } }
        if (!ok) for (int l : c) if (std::find(c.begin(), c.end(), -l) != c.end()) ok = true; // tautology
        if (!ok) return false;
    }
    return true;
}
int RefSolver::solve(int nvars, const std::vector<std::vector<int>>& cls, const std::vector<int>& as, std::vector<signed char>& model, long budget) {
    for (auto& c : cls) for (int l : c) nvars = std::max(nvars, std::abs(l));
    for (int l : as) nvars = std::max(nvars, std::abs(l));
    Cdcl s(nvars);
    for (auto& c : cls) s.add(c);
    int r = s.solve(as, budget);
    if (r == 10) model = s.val;
    return r;
}
int decide(const Formula& f, long budget) {
    int n = std::max(f.nvars, f.max_used());
    if (n <= 16) { ModelSet m(n); for (auto& c : f.clauses) m.add_clause(c); return m.empty() ? 20 : 10; }
    if (!f.planted.empty()) return 10;
    { // variables with gaps: decide the compacted formula
        std::map<int, int> id; for (auto& c : f.clauses) for (int l : c) id.emplace(std::abs(l), 0);
        if ((int)id.size() < n) { int k = 0; for (auto& e : id) e.second = ++k; Formula g; g.nvars = k; for (auto c : f.clauses) { for (int& l : c) l = l > 0 ? id[l] : -id[-l]; g.clauses.push_back(c); } return decide(g, budget); }
    }
    std::vector<signed char> mod;
    int r = RefSolver::solve(n, f.clauses, {}, mod, budget);
    if (r == 10 && !satisfies(f.clauses, mod)) { fprintf(stderr, "oracle: reference model wrong\n"); abort(); }
    return r;
}

// ------------------------------------------------------------------ DRAT (forward, drat-trim conventions: deletions of clauses
// that are unit under the top-level assignment are ignored; unknown deletions are ignored; RAT on the first literal)
namespace {
struct Drat {
    int n; std::vector<std::vector<int>> db; std::vector<char> alive; std::vector<std::vector<int>> watch; std::vector<std::vector<int>> occ;
    std::vector<signed char> val; std::vector<int> trail; size_t qh = 0; bool contra = false; std::vector<int> reason_of; // var -> clause or -1
    std::map<std::vector<int>, std::vector<int>> index;
    static int ix(int l) { return l > 0 ? 2 * l : -2 * l + 1; }
    int value(int l) const { return l > 0 ? val[l] : -val[-l]; }
    explicit Drat(int n_) : n(n_), watch(2 * n_ + 2), occ(2 * n_ + 2), val(n_ + 1, 0), reason_of(n_ + 1, -1) {}
    void grow(int m) { if (m <= n) return; n = m; watch.resize(2 * n + 2); occ.resize(2 * n + 2); val.resize(n + 1, 0); reason_of.resize(n + 1, -1); }
    void set(int l, int r) { val[std::abs(l)] = l > 0 ? 1 : -1; reason_of[std::abs(l)] = r; trail.push_back(l); }
    bool propagate() { // false on conflict
        while (qh < trail.size()) {
            int l = -trail[qh++];
            auto& ws = watch[ix(l)]; size_t j = 0;
            for (size_t i = 0; i < ws.size(); i++) {
                int ci = ws[i]; if (!alive[ci]) continue; auto& c = db[ci];
                if (c[0] == l) std::swap(c[0], c[1]);
                if (value(c[0]) > 0) { ws[j++] = ci; continue; }
                bool moved = false;
                for (size_t k = 2; k < c.size(); k++) if (value(c[k]) >= 0) { std::swap(c[1], c[k]); watch[ix(c[1])].push_back(ci); moved = true; break; }
                if (moved) continue;
                ws[j++] = ci;
                if (value(c[0]) < 0) { for (i++; i < ws.size(); i++) ws[j++] = ws[i]; ws.resize(j); return false; }
                set(c[0], ci);
            }
            ws.resize(j);
        }
        return true;
    }
    void undo(size_t to) { while (trail.size() > to) { val[std::abs(trail.back())] = 0; reason_of[std::abs(trail.back())] = -1; trail.pop_back(); } qh = to; }
    void add(const std::vector<int>& lits) { // top level
        std::vector<int> key = lits; std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
        for (int l : key) grow(std::abs(l));
        int id = (int)db.size(); std::vector<int> c = key;
        // watch non-false literals first
        std::stable_sort(c.begin(), c.end(), [this](int a, int b) { return value(a) > value(b); });
        db.push_back(c); alive.push_back(1); index[key].push_back(id);
        for (int l : c) occ[ix(l)].push_back(id);
        if (contra) return;
        if (c.empty()) { contra = true; return; }
        if (c.size() > 1) { watch[ix(c[0])].push_back(id); watch[ix(c[1])].push_back(id); }
        int nonfalse = 0; bool sat = false; for (int l : c) { if (value(l) > 0) sat = true; if (value(l) >= 0) nonfalse++; }
        if (!sat) {
            if (nonfalse == 0) { contra = true; return; }
            if (nonfalse == 1) { set(c[0], id); if (!propagate()) contra = true; }
        }
    }
    void del(const std::vector<int>& lits) {
        std::vector<int> key = lits; std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = index.find(key);
        if (it == index.end() || it->second.empty()) return;
        int id = it->second.back();
        for (int l : key) if (value(l) > 0 && reason_of[std::abs(l)] == id) return; // unit under top level: ignored
        if (key.size() == 1) return;
        it->second.pop_back(); alive[id] = 0;
    }
    bool rup(const std::vector<int>& lits) {
        if (contra) return true;
        size_t base = trail.size(); bool ok = false;
        for (int l : lits) { grow(std::abs(l)); if (value(l) > 0) { ok = true; break; } if (value(l) == 0) set(-l, -1); }
        if (!ok) ok = !propagate();
        undo(base);
        return ok;
    }
    bool rat(const std::vector<int>& lits, int pivot) {
        for (int id : occ[ix(-pivot)]) if (alive[id]) {
            std::vector<int> r = lits; bool taut = false;
            for (int l : db[id]) if (l != -pivot) { if (std::find(lits.begin(), lits.end(), -l) != lits.end()) { taut = true; break; } r.push_back(l); }
            if (taut) continue;
            if (!rup(r)) return false;
        }
        return true;
    }
};
}
DratResult drat_check(const Formula& f, const std::string& proof, bool allow_torn) {
    DratResult R{true, false, 0, "", 0, 0, false};
    Drat d(std::max(f.nvars, f.max_used()));
    for (auto& c : f.clauses) {
        std::set<int> s(c.begin(), c.end()); bool taut = false; for (int l : s) if (s.count(-l)) taut = true;
        if (!taut) d.add(c);
    }
    size_t pos = 0; int line = 0;
    while (pos < proof.size()) {
        size_t e = proof.find('\n', pos); line++;
        if (e == std::string::npos) {
            R.torn = true;
            if (!allow_torn) { R.ok = false; R.bad_line = line; R.why = "proof ends without newline"; }
            break;
        }
        std::string ln = proof.substr(pos, e - pos); pos = e + 1;
        const char* p = ln.c_str(); bool del = false;
        while (*p == ' ') p++;
        if (*p == 'c') continue;
        if (!*p) continue;
        if (*p == 'd') { del = true; p++; }
        std::vector<int> lits; bool term = false;
        for (;;) {
            char* q; long v = strtol(p, &q, 10);
            if (q == p) break;
            p = q;
            if (v == 0) { term = true; break; }
            if (std::labs(v) > 100000000) { R.ok = false; R.bad_line = line; R.why = "literal out of range"; return R; }
            lits.push_back((int)v);
        }
        while (*p == ' ') p++;
        if (!term || *p) { R.ok = false; R.bad_line = line; R.why = "malformed proof line: " + ln; return R; }
        if (R.refuted) continue;             // anything after the empty clause is irrelevant
        if (del) { R.deletions++; d.del(lits); continue; }
        R.lemmas++;
        if (!d.rup(lits)) {
            bool ok = !lits.empty() && d.rat(lits, lits[0]);
            if (!ok) { R.ok = false; R.bad_line = line; R.why = "lemma is neither RUP nor RAT: " + ln; return R; }
        }
        if (lits.empty()) R.refuted = true; else d.add(lits);
    }
    return R;
}

// ------------------------------------------------------------------ generators
static int rlit(int n) { int v = 1 + (int)draw(W, (uint32_t)n); return draw(W, 2) ? v : -v; }
Formula gen_random(int n, int m, int kmin, int kmax) {
    Formula f; f.nvars = n; f.family = "random";
    for (int i = 0; i < m; i++) {
        int k = range(W, kmin, kmax); std::vector<int> c;
        for (int j = 0; j < k; j++) {
            int l = rlit(n);
            bool dup = false; for (int x : c) if (std::abs(x) == std::abs(l)) dup = true;
            if (!dup) c.push_back(l);
        }
        f.clauses.push_back(c);
    }
    return f;
}
Formula gen_php(int holes, int pigeons) {
    Formula f; f.nvars = holes * pigeons; f.family = "php";
    auto v = [&](int p, int h) { return p * holes + h + 1; };
    for (int p = 0; p < pigeons; p++) { std::vector<int> c; for (int h = 0; h < holes; h++) c.push_back(v(p, h)); f.clauses.push_back(c); }
    for (int h = 0; h < holes; h++) for (int p = 0; p < pigeons; p++) for (int q = p + 1; q < pigeons; q++) f.clauses.push_back({-v(p, h), -v(q, h)});
    return f;
}
static void add_xor(Formula& f, std::vector<int> vs, bool rhs) {
    int k = (int)vs.size();
    for (int m = 0; m < (1 << k); m++) {
        int par = __builtin_popcount((unsigned)m) & 1;
        if (par == (rhs ? 1 : 0)) continue;            // assignment m satisfies the xor
        std::vector<int> c; for (int j = 0; j < k; j++) c.push_back((m >> j) & 1 ? -vs[j] : vs[j]);
        f.clauses.push_back(c);
    }
}
Formula gen_parity(int n, bool) {
    Formula f; f.nvars = n; f.family = "parity";
    int m = n + (int)draw(W, 3);
    for (int i = 0; i < m; i++) {
        std::vector<int> vs; int k = range(W, 2, 4);
        for (int j = 0; j < k; j++) { int v = 1 + (int)draw(W, (uint32_t)n); if (std::find(vs.begin(), vs.end(), v) == vs.end()) vs.push_back(v); }
        add_xor(f, vs, draw(W, 2));
    }
    return f;
}
Formula gen_circuit(int ni, int ng, bool miter) {
    Formula f; f.family = miter ? "miter" : "circuit";
    std::vector<int> sig; for (int i = 1; i <= ni; i++) sig.push_back(i);
    int nv = ni;
    auto enc = [&](int type, int o, int a, int b, int c) {
        switch (type) {
            case 0: f.clauses.push_back({-o, a}); f.clauses.push_back({-o, b}); f.clauses.push_back({o, -a, -b}); break;     // and
            case 1: f.clauses.push_back({o, -a}); f.clauses.push_back({o, -b}); f.clauses.push_back({-o, a, b}); break;      // or
            case 2: f.clauses.push_back({-o, a, b}); f.clauses.push_back({-o, -a, -b}); f.clauses.push_back({o, a, -b}); f.clauses.push_back({o, -a, b}); break; // xor
            case 3: f.clauses.push_back({-o, -a, b}); f.clauses.push_back({-o, a, c}); f.clauses.push_back({o, -a, -b}); f.clauses.push_back({o, a, -c}); break; // ite
            default: f.clauses.push_back({-o, a}); f.clauses.push_back({o, -a}); break; // equiv
        }
    };
    struct G { int type, a, b, c; };
    std::vector<G> gates; std::vector<int> out1;
    for (int i = 0; i < ng; i++) {
        G g; g.type = (int)draw(W, 5); if (g.type == 4 && draw(W, 3)) g.type = 0;
        auto pick = [&]() { int k = (int)sig.size(); int lo = draw(W, 3) ? std::max(0, k - 4) : 0; int s = sig[lo + (int)draw(W, (uint32_t)(k - lo))]; return draw(W, 2) ? -s : s; };
        g.a = pick(); g.b = pick(); g.c = pick();
        if (std::abs(g.a) == std::abs(g.b)) { int k = 1; for (int s : sig) if (s != std::abs(g.a)) { k = s; break; } g.b = draw(W, 2) ? k : -k; }
        gates.push_back(g); int o = ++nv; enc(g.type, o, g.a, g.b, g.c); sig.push_back(o); out1.push_back(o);
    }
    if (miter && !out1.empty()) { // second, rewritten copy over the same inputs, outputs compared
        std::map<int, int> m; for (int i = 1; i <= ni; i++) m[i] = i;
        auto tr = [&](int l) { int s = m[std::abs(l)]; return l > 0 ? s : -s; };
        size_t k = 0; bool mutate = draw(W, 3) == 0; size_t mi = draw(W, (uint32_t)gates.size());
        for (G g : gates) {
            int o = ++nv; int t = g.type;
            if (mutate && k == mi) t = (t + 1) % 3;
            if (draw(W, 2)) enc(t, o, tr(g.b), tr(g.a), tr(g.c)); else enc(t, o, tr(g.a), tr(g.b), tr(g.c));
            if (t == 3) { // keep operand order for ite: rewrite properly
            }
            m[out1[k]] = o; k++;
        }
        int x = ++nv; int a = out1.back(), b = m[out1.back()];
        enc(2, x, a, b, 0);
        f.clauses.push_back({x});
    } else {
        int o = sig.back(); f.clauses.push_back({draw(W, 2) ? o : -o});
        if (draw(W, 2)) { int s = sig[draw(W, (uint32_t)sig.size())]; int s2 = sig[draw(W, (uint32_t)sig.size())]; f.clauses.push_back({draw(W, 2) ? s : -s, draw(W, 2) ? s2 : -s2}); }
    }
    f.nvars = nv;
    return f;
}
static void noise(Formula& f) { // rare but legal shapes: duplicate literals, tautologies, duplicate clauses, units, empty clause
    if (draw(W, 3) != 2 || f.nvars == 0) return;
    int k = range(W, 1, 4);
    for (int i = 0; i < k; i++) {
        switch (draw(W, 8)) {
            case 0: if (!f.clauses.empty()) f.clauses.push_back(f.clauses[draw(W, (uint32_t)f.clauses.size())]); break;
            case 1: if (!f.clauses.empty()) { auto& c = f.clauses[draw(W, (uint32_t)f.clauses.size())]; if (!c.empty()) c.push_back(c[0]); } break;
            case 2: { int l = rlit(f.nvars), m = rlit(f.nvars); f.clauses.push_back({l, m, -l}); break; }
            case 3: f.clauses.push_back({rlit(f.nvars)}); f.planted.clear(); break;
            case 4: { // long clause
                std::vector<int> c; for (int v = 1; v <= f.nvars; v++) if (draw(W, 4)) c.push_back(draw(W, 2) ? v : -v);
                if (!c.empty()) { f.clauses.push_back(c); f.planted.clear(); } break; }
            case 5: if (!f.clauses.empty()) { auto c = f.clauses[draw(W, (uint32_t)f.clauses.size())]; c.push_back(rlit(f.nvars)); f.clauses.push_back(c); } break; // subsumed
            case 6: f.nvars += 1 + (int)draw(W, 3); break;                       // unused variables in the header
            case 7: if (draw(W, 6) == 5) { f.clauses.push_back({}); f.planted.clear(); } break;
        }
    }
}
// the same formula over variables with gaps between them (large and unused indices)
void maybe_sparse(Formula& f) {
    if (draw(W, 24) != 23 || f.nvars == 0) return;
    int stride = draw(W, 3) ? range(W, 2, 9) : range(W, 10, 300), off = (int)draw(W, 40); if (f.nvars > 20 && stride > 9) stride = 9;
    auto mp = [&](int l) { int v = (std::abs(l) - 1) * stride + 1 + off; return l > 0 ? v : -v; };
    for (auto& c : f.clauses) for (int& l : c) l = mp(l);
    for (int& l : f.planted) l = mp(l);
    f.nvars = f.nvars * stride + off; f.family += "-sparse";
}
// clauses longer than 16 bits can count, some of their literals falsified by unit clauses
Formula gen_wide() {
    Formula f; f.family = "wide";
    if (draw(W, 3) == 2) { // more unit clauses than fit into one memory page of the solver, and a small formula over the other variables
        int n = 87381 + range(W, 0, 400) - (draw(W, 3) == 2 ? 400 : 0), core = range(W, 3, 12), at = draw(W, 2) ? 0 : n; bool chain = draw(W, 3) == 2; f.nvars = n + core;
        std::vector<int> u; for (int v = 1; v <= n; v++) { int x = at ? v : v + core; u.push_back(draw(W, 2) ? x : -x); }
        int end = chain ? n - range(W, 0, 300) : n; // the last of them follow from others
        for (int i = 0; i < end; i++) f.clauses.push_back({u[(size_t)i]});
        for (int i = end; i < n; i++) f.clauses.push_back({-u[(size_t)(i ? i - 1 : 0)], u[(size_t)i]});
        Formula g = gen_random(core, range(W, core, 5 * core), 2, 3); std::vector<std::vector<int>> h;
        for (auto c : g.clauses) { for (int& l : c) l += (l > 0 ? at : -at); if (draw(W, 3) == 2) c.push_back(-u[draw(W, (uint32_t)n)]); h.push_back(c); }
        size_t q = draw(W, 2) ? f.clauses.size() : draw(W, (uint32_t)f.clauses.size()); f.clauses.insert(f.clauses.begin() + (long)q, h.begin(), h.end());
        return f;
    }
    static const int N[] = {65534, 65535, 65536, 65537, 65540, 65700, 66000, 131071, 131072, 131074};
    int n = N[draw(W, 10)]; f.nvars = n; std::vector<int> c; bool shuffle = draw(W, 2); int sg = (int)draw(W, 3);
    for (int v = 1; v <= n; v++) c.push_back(sg == 0 ? v : sg == 1 ? -v : v % 2 ? v : -v);
    if (shuffle) { int k = 1 + (int)draw(W, (uint32_t)n - 1); std::rotate(c.begin(), c.begin() + k, c.end()); }
    f.clauses.push_back(c);
    int k = (int)draw(W, 2) ? n % 65536 : (int)draw(W, 200); if (k > 500) k = 500; if (n > 100000 && k > 60) k = 60; // every unit clause strengthens the long clause, which copies it
    for (int i = 0; i < k; i++) f.clauses.push_back({-c[(size_t)i]});
    if (draw(W, 2)) f.clauses.push_back({c[(size_t)n - 1], c[(size_t)n - 2], -c[(size_t)n - 3]});
    f.planted = c; for (int i = 0; i < k; i++) f.planted[(size_t)i] = -c[(size_t)i];
    return f;
}
Formula gen_small() {
    Formula f;
    switch (draw(W, 8)) {
        default: { int n = range(W, 3, 12); int k = range(W, 2, 4); int m = (int)(n * (k == 2 ? 20 : k == 3 ? 44 : 90) / 10) + range(W, -n, n); if (m < 1) m = 1; f = gen_random(n, m, 3, 3); break; }
        case 1: { int n = range(W, 3, 12); int m = range(W, n, 4 * n); f = gen_random(n, m, 2, 3); break; }
        case 2: { int n = range(W, 4, 12); int m = range(W, n, 5 * n); f = gen_random(n, m, 1, 5); break; }
        case 3: f = gen_parity(range(W, 3, 11), true); break;
        case 4: { int h = range(W, 2, 3); f = gen_php(h, h + (draw(W, 3) ? 1 : 0)); break; }
        case 5: f = gen_circuit(range(W, 2, 4), range(W, 1, 8), false); break;
        case 6: f = gen_circuit(range(W, 2, 3), range(W, 1, 4), true); break;
    }
    noise(f);
    return f;
}
Formula gen_formula(int hint) {
    if (hint == 0) return gen_small();
    Formula f;
    switch (draw(W, hint == 1 ? 8 : 6)) {
        default: { int n = hint == 1 ? range(W, 25, 75) : range(W, 90, 160); int m = (int)(n * (38 + (int)draw(W, 10)) / 10); f = gen_random(n, m, 3, 3); break; }
        case 1: { int h = hint == 1 ? range(W, 4, 5) : range(W, 6, 8); f = gen_php(h, h + 1); break; }
        case 2: f = gen_parity(hint == 1 ? range(W, 12, 30) : range(W, 30, 45), true); break;
        case 3: { int n = range(W, 20, 60); f = gen_random(n, n * 9 / 2, 2, 4); break; }
        case 4: f = gen_circuit(range(W, 4, 10), range(W, 20, 80), true); break;
        case 5: f = gen_circuit(range(W, 4, 12), range(W, 20, 100), false); break;
        case 6: { // planted, large and wide
            int n = range(W, 60, 200); f.nvars = n; f.family = "planted"; std::vector<int> sol(n + 1);
            for (int v = 1; v <= n; v++) { sol[v] = draw(W, 2) ? v : -v; f.planted.push_back(sol[v]); }
            int m = (int)(n * (36 + (int)draw(W, 8)) / 10);
            for (int i = 0; i < m; i++) {
                std::vector<int> c; int k = range(W, 2, 4); bool ok = false;
                for (int j = 0; j < k; j++) { int l = rlit(n); c.push_back(l); if (sol[std::abs(l)] == l) ok = true; }
                if (!ok) { int v = std::abs(c[0]); c[0] = sol[v]; }
                f.clauses.push_back(c);
            }
            break; }
        case 7: { int n = range(W, 14, 40); f = gen_random(n, range(W, n, 6 * n), 1, 6); break; }
    }
    noise(f);
    return f;
}

// formulas that need hundreds of conflicts, so that restarts, reductions and inprocessing happen; mixed with structure
// (equivalences, definitions, long clauses) for the simplifications to work on in the middle of the search
Formula gen_deep() {
    Formula f; int n = range(W, 70, 105); f.nvars = n; f.family = "deep";
    int m = n * range(W, 40, 44) / 10; bool plant = draw(W, 3) == 2; std::vector<int> sol((size_t)n + 1);
    if (plant) for (int v = 1; v <= n; v++) { sol[(size_t)v] = draw(W, 2) ? v : -v; f.planted.push_back(sol[(size_t)v]); }
    auto put = [&](std::vector<int> c) { if (plant) { bool ok = false; for (int l : c) if (sol[(size_t)std::abs(l)] == l) ok = true; if (!ok) c[0] = -c[0]; } f.clauses.push_back(c); };
    for (int i = 0; i < m; i++) { int a = rlit(n), b = rlit(n), c = rlit(n); if (std::abs(a) == std::abs(b) || std::abs(b) == std::abs(c) || std::abs(a) == std::abs(c)) { i--; continue; } put({a, b, c}); }
    int x = range(W, 0, 12); // definitions with fresh variables, used once or twice
    for (int i = 0; i < x; i++) {
        int o = ++f.nvars, a = rlit(n), b = rlit(n); int va = 0, vb = 0, vo = 0;
        if (plant) { sol.push_back(0); va = sol[(size_t)std::abs(a)] == a; vb = sol[(size_t)std::abs(b)] == b; }
        switch (draw(W, 3)) {
            case 0: f.clauses.push_back({-o, a}); f.clauses.push_back({-o, b}); f.clauses.push_back({o, -a, -b}); vo = va && vb; break;
            case 1: f.clauses.push_back({-o, a}); f.clauses.push_back({o, -a}); vo = va; break;
            case 2: f.clauses.push_back({-o, a, b}); f.clauses.push_back({-o, -a, -b}); f.clauses.push_back({o, -a, b}); f.clauses.push_back({o, a, -b}); vo = va != vb; break;
        }
        if (plant) { sol[(size_t)o] = vo ? o : -o; f.planted.push_back(sol[(size_t)o]); }
        int u = range(W, 0, 2); for (int j = 0; j < u; j++) { int c = rlit(n), d = rlit(n); if (std::abs(c) != std::abs(d)) put({draw(W, 2) ? o : -o, c, d}); }
    }
    int y = range(W, 0, 6); for (int i = 0; i < y; i++) { std::vector<int> c; int k = range(W, 4, 9); for (int j = 0; j < k; j++) { int l = rlit(n); bool dup = false; for (int q : c) if (std::abs(q) == std::abs(l)) dup = true; if (!dup) c.push_back(l); } put(c); }
    return f;
}
