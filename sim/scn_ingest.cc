// Reading the input: any layout, compression and chunking (ingest), and broken input and failing disks (badinput).
// Oracle: a reference reader working on the text that was rendered.
#include "scenario.h"
#include <zlib.h>
#include <cerrno>
#include <cstring>
#include <unistd.h>
#include "candy/core/CNFProblem.h"
#include "candy/utils/Exceptions.h"
using namespace sim;
namespace {
std::string gz(const std::string& s, int level) {
    z_stream z; memset(&z, 0, sizeof z); deflateInit2(&z, level, Z_DEFLATED, 31, 8, Z_DEFAULT_STRATEGY);
    std::string o(deflateBound(&z, s.size()) + 64, 0);
    z.next_in = (Bytef*)s.data(); z.avail_in = (uInt)s.size(); z.next_out = (Bytef*)&o[0]; z.avail_out = (uInt)o.size();
    deflate(&z, Z_FINISH); o.resize(z.total_out); deflateEnd(&z); return o;
}
// whether zlib itself notices the damage (it does not when a cut-off stream has consumed its input but not yet delivered all output)
bool zlib_notices(const std::string& data) {
    char name[] = "/tmp/simgz-XXXXXX"; int fd = mkstemp(name); if (fd < 0) return true; unlink(name);
    bool bad = write(fd, data.data(), data.size()) != (ssize_t)data.size(); lseek(fd, 0, SEEK_SET);
    gzFile g = gzdopen(fd, "rb"); std::vector<char> buf(1 << 20); int n, e = 0;
    do { n = gzread(g, buf.data(), (unsigned)buf.size()); gzerror(g, &e); if (n < 0 || (e != Z_OK && e != Z_STREAM_END)) bad = true; } while (!bad && n > 0);
    gzclose(g); return bad;
}
typedef std::vector<std::vector<int>> Cls;
struct Ref { bool ok; Cls cls; int top; };
bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
// the documented format: comments and header at clause boundaries, integers separated by white space, 0 ends a clause
Ref ref_read(const std::string& t) {
    Ref R; R.ok = true; R.top = 0; size_t i = 0, n = t.size(); std::vector<int> cur; bool open = false; int hdr = 0;
    while (i < n) {
        if (blank(t[i])) { i++; continue; }
        if (!open && hdr == 0 && t[i] == 'c') { while (i < n && !(t[i] >= 10 && t[i] <= 13)) i++; continue; }
        if (!open && hdr == 0 && t[i] == 'p') { if (t.compare(i, 5, "p cnf")) { R.ok = false; return R; } i += 5; hdr = 2; continue; }
        size_t j = i; while (j < n && !blank(t[j])) j++;
        std::string tok = t.substr(i, j - i); i = j;
        size_t k = tok[0] == '-' ? 1 : 0; bool num = tok.size() > k;
        for (size_t q = k; q < tok.size(); q++) if (tok[q] < '0' || tok[q] > '9') num = false;
        if (!num) { R.ok = false; return R; }
        long v = 0; size_t dig = tok.find_first_not_of('0', k); if (dig == std::string::npos) dig = tok.size();
        if (tok.size() - dig > 10) { R.ok = false; return R; }
        for (size_t q = dig; q < tok.size(); q++) v = v * 10 + (tok[q] - '0');
        if (v > 1073741824L) { R.ok = false; return R; }
        if (k) v = -v;
        if (hdr) { if (v < 0) { R.ok = false; return R; } hdr--; continue; }
        if (v == 0) { open = false; R.cls.push_back(cur); cur.clear(); } else { open = true; cur.push_back((int)v); R.top = std::max(R.top, (int)std::labs(v)); }
    }
    if (open || hdr) R.ok = false;
    return R;
}
Cls normal(const Cls& in) { // as a set of literals per clause, tautologies carry no information
    Cls o; for (auto c : in) { std::sort(c.begin(), c.end(), [](int a, int b) { return std::abs(a) != std::abs(b) ? std::abs(a) < std::abs(b) : a < b; }); c.erase(std::unique(c.begin(), c.end()), c.end());
        bool taut = false; for (size_t i = 0; i + 1 < c.size(); i++) if (c[i] == -c[i + 1]) taut = true; if (!taut) o.push_back(c); } return o;
}
std::string sep(bool crlf) { switch (draw(W, 8)) { default: return " "; case 4: return "\n"; case 5: return "  "; case 6: return "\t"; case 7: return crlf ? "\r\n" : "\n\n "; } }
std::string commentary(size_t len) { std::string s = "c"; static const char A[] = "abc -0 1p2 \t9xc"; for (size_t i = 0; i < len; i++) s += A[draw(W, sizeof A - 1)]; return s + "\n"; }
}

struct IngestScenario : Scenario {
    bool bad; int mode; // mode 0 = reader interface, 1 = command line, 2 = reader interface on standard input
    std::vector<std::string> args; Formula f; std::string text;
    explicit IngestScenario(bool b) : bad(b) {}
    static void body(void* p) { IngestScenario* me = (IngestScenario*)p; if (me->mode == 1) { int rc = call_candy_main(me->args); exit(rc); } me->read(); }
    void read() {
        using namespace Candy;
        CNFProblem pb;
        try { if (mode == 2) pb.readDimacsFromStdin(); else pb.readDimacsFromFile(file_path(FIN).c_str()); }
        catch (ParserException& e) { log_i(-2000000001); return; }
        log_i(-2000000002); log_i((int)pb.nVars());
        for (Cl* c : pb) { for (Lit l : *c) log_i(((int)l.var() + 1) * (l.sign() ? -1 : 1)); log_i(0); }
        log_i(-2000000003);
    }
    std::string render() {
        std::string b; bool crlf = draw(W, 5) == 4, cr = draw(W, 3) == 2, wide = draw(W, 2);
        for (auto& c : f.clauses) {
            if (cr && draw(W, 4) == 3) b += commentary(draw(W, 40));
            for (int l : c) { b += std::to_string(l); b += wide ? sep(crlf) : " "; if (draw(W, 40) == 39) b += std::string(1 + draw(W, 30), ' '); }
            b += "0"; b += cr ? (crlf ? "\r\n" : "\n") : wide ? sep(crlf) : "\n";
        }
        if (draw(W, 5) == 4) while (!b.empty() && blank(b.back())) b.pop_back();      // no newline at the end
        std::string head; if (draw(W, 6) != 5) head = "p cnf " + std::to_string(f.max_used()) + " " + std::to_string(f.clauses.size()) + (draw(W, 4) == 3 ? " \n" : "\n");
        uint32_t big = draw(W, 5); if (bad && big == 4) big = draw(W, 2) ? 4 : 0;
        if (big >= 3 && b.size() > 2) { // place the clauses over a border of the reader's blocks
            static const size_t BL[] = {1u << 20, 1u << 20, 2u << 20, 16384, 8192, 4096}; size_t B = BL[draw(W, 6)];
            size_t in = draw(W, (uint32_t)b.size()); size_t want = B - in > head.size() ? B - in - head.size() : 0;
            std::string pad;
            switch (draw(W, 4)) {
                case 0: while (pad.size() + 80 < want) { pad += "c "; pad.append(60, 'x'); pad += '\n'; } break;
                case 1: if (want > 10) { pad = "c"; pad.append(want - 5, 'y'); pad += '\n'; } break;
                case 2: while (pad.size() + 200 < want) { pad += "c a b"; pad.append(100, ' '); pad += "\n"; } break;
                case 3: break;
            }
            if (pad.size() < want) { size_t d = want - pad.size(); if (d >= 2) { pad += "c"; pad.append(d - 2, draw(W, 2) ? ' ' : 'z'); pad += "\n"; } else pad += "\n"; }
            count(B >= (1u << 20) ? "probe.block_border_1MiB" : "probe.block_border_small");
            bool after = draw(W, 3) == 2 && head.size(); return after ? head + pad + b : pad + head + b;
        }
        return head + b;
    }
    void execute() override {
        args.clear();
        f = draw(W, 3) ? gen_small() : gen_formula(0);
        if (draw(W, 4) == 3) for (auto& c : f.clauses) for (int& l : c) if (draw(W, 3) == 2) l = l > 0 ? l + (int)draw(W, 3) * 1000 : l - (int)draw(W, 3) * 1000;
        text = render(); if (text.empty()) text = "c nothing\n"; mode = (int)draw(W, 3); 
        std::string intended = text; bool crafted = false;
        RunConfig& c = g_cfg; c.max_steps = 1500ull * 1000 * 1000; c.ns_per_step = 100; c.heap_seed = draw(F, 3) == 0 ? 0 : 1 + draw(F, 1000000); c.heap_guard = draw(F, 3) == 2;
        uint32_t bk = bad ? 1 + draw(F, 7) : 0;
        if (bk == 5 && text.size()) { text.resize(draw(F, (uint32_t)text.size())); crafted = true; }
        if (bk == 6 && text.size()) {
            static const char G[] = {'x', '%', '.', '\0', (char)0x80, (char)0xff, 'e', '/', ',', '*', 'A'}; int k = 1 + (int)draw(F, 2);
            for (int i = 0; i < k; i++) { size_t tail = std::min<size_t>(text.size(), 4000); text[text.size() - 1 - draw(F, (uint32_t)tail)] = G[draw(F, sizeof G)]; } crafted = true; }
        if (bk == 7) { static const char* N[] = {"2147483648", "-2147483648", "4294967297", "4611686018427387905", "-4611686018427387905", "9223372036854775807", "-9223372036854775808", "18446744073709551617", "99999999999999999999999", "-", "--1", "p", "0x1", "1e3", "nan", "-2147483649", "9223372036854775809", "2147483647", "1073741825", "-2147483647", "-1073741825"};
            std::string ins = std::string(" ") + N[draw(F, 21)] + " "; size_t at = text.size(); for (size_t tries = 0; tries < 50; tries++) { size_t q = text.size() - 1 - draw(F, (uint32_t)std::min<size_t>(text.size(), 4000)); if (blank(text[q])) { at = q; break; } } text.insert(at, ins); crafted = true; }
        Ref R = ref_read(text); std::string data = text; int comp = (int)draw(W, 4); if (bk == 3 || bk == 4) comp = 1;
        if (R.top > 100000) mode = 0;
        if (comp == 1 || comp == 2) data = gz(text, (int)draw(W, 10));
        if (comp == 3) { size_t k = text.empty() ? 0 : draw(W, (uint32_t)text.size()); data = gz(text.substr(0, k), 6) + gz(text.substr(k), 1); }
        bool damaged = false, invisible = false;
        if (bk == 1) { c.read_fail_at = 1 + draw(F, 1u << draw(F, 8)); static const int E[] = {EIO, EINTR, ESTALE, ENOMEM}; c.read_errno = E[draw(F, 4)]; c.read_fail_sticky = draw(F, 2); }
        if (bk == 2) { static const int E[] = {ENOENT, EACCES, EMFILE, ENOMEM}; c.open_errno = E[draw(F, 4)]; if (mode == 2) mode = 0; }
        if (bk == 3) { data.resize(1 + draw(F, (uint32_t)data.size() - 1)); damaged = true; }
        if (bk == 4) { size_t p = draw(F, (uint32_t)data.size()); data[p] = (char)(data[p] ^ (1 << draw(F, 8))); damaged = true; }
        if (bk == 1 || draw(F, 2)) { c.read_chunk = 1u << draw(F, 15); if (data.size() > 100000 && c.read_chunk < 512) c.read_chunk = 512; c.read_chunk_random = draw(F, 2); }
        if (const char* dump = getenv("SIM_DUMP")) { FILE* q = fopen(dump, "w"); if (q) { fwrite(data.data(), 1, data.size(), q); fclose(q); } }
        if (damaged && !zlib_notices(data)) { count("probe.damage_invisible"); damaged = false; bk = 0; crafted = true; R.ok = true; invisible = true; }
        set_file(FIN, data);
        if (mode == 1) { args.push_back("-model"); if (draw(W, 4) != 3 || bk == 2) args.push_back(file_path(FIN)); }
        describe = std::string(mode == 0 ? "reader on file" : mode == 1 ? "candy " + join(args) : "reader on stdin") + " | " + f.family + " text=" + std::to_string(text.size()) + " bytes=" + std::to_string(data.size()) + " compression=" + std::to_string(comp) + " chunk=" + std::to_string(c.read_chunk) + " fault=" + std::to_string(bk) + (R.ok ? "" : " (malformed)");
        if (text.size() < 1500) describe += "\n" + text;
        RunResult r = go(body, this, 120);
        if (error) return;
        Shared& s = *g_sh; std::string how = std::string(bad ? "fault " + std::to_string(bk) + ", " : "") + (mode == 0 ? "file" : mode == 1 ? "command line" : "stdin") + (comp ? ", gzip" : "");
        if (invisible) return;
        const char* P = bad ? "C16" : "C15";
        if (s.stepcap) { if (mode != 1) violate(P, "endless", "reading did not end: " + how); count("end.budget"); return; }
        if (r.sig) { violate(P, "crash-" + std::to_string(r.sig), "process died with signal " + std::to_string(r.sig) + ": " + how); return; }
        if (s.heap_corrupt) violate(P, "heap-corruption", "heap block overrun: " + how);
        bool disk = s.f_read_err > 0 || s.f_open_err > 0;
        nontrivial = bad ? (disk || damaged || crafted) : (s.f_read_short > 0 || text.size() > 100000 || comp);
        count("mode." + std::to_string(mode)); if (crafted) count(R.ok ? "probe.crafted_wellformed" : "probe.crafted_malformed"); if (damaged) count("probe.damaged_gzip"); if (comp) count("probe.gzip");
        bool rejected; Cls got; bool complete = false; int nv = 0;
        if (mode == 1) {
            rejected = r.code == 1 && r.out.find("Parser Exception") != std::string::npos;
            std::vector<std::string> st = lines_with(r.out, "s ");
            if (rejected && !st.empty()) violate(P, "answer-after-error", "status line although the input was rejected: " + how);
            if (!rejected) {
                int v = st.empty() ? -1 : st[0] == "s SATISFIABLE" ? 10 : st[0] == "s UNSATISFIABLE" ? 20 : 0;
                if (v == -1) violate(P, "no-answer-no-error", "exit code " + std::to_string(r.code) + ": " + how);
                if (R.ok || disk || damaged) { Formula g; g.clauses = ref_read(damaged || disk ? text : text).cls; g.nvars = g.max_used(); int d = decide(g); if ((v == 10 || v == 20) && d + v == 30) violate(P, "different-formula", "the answer is wrong for the formula in the file: " + how); }
            }
        } else {
            rejected = s.nlog >= 1 && s.log[0] == -2000000001;
            if (!rejected && s.nlog >= 3) { nv = s.log[1]; std::vector<int> cur; for (uint32_t i = 2; i < s.nlog; i++) { int v = s.log[i]; if (v == -2000000003) { complete = true; break; } if (v == 0) { got.push_back(cur); cur.clear(); } else cur.push_back(v); } }
            if (!rejected && !complete) { violate(P, "no-result", "reading neither failed nor finished: " + how); return; }
            Cls want = normal(R.cls);
            if (!rejected && R.ok && normal(got) != want) violate(P, "different-formula", "the formula read differs from the one in the file (" + std::to_string(got.size()) + " instead of " + std::to_string(want.size()) + " clauses): " + how);
            int top = 0; for (auto& q : want) for (int l : q) top = std::max(top, std::abs(l));
            if (!rejected && R.ok && nv < top) violate(P, "variables", "number of variables too small: " + how);
        }
        count(rejected ? "end.rejected" : "end.accepted");
        if (!bad && rejected) violate(P, "rejected", "well-formed input rejected: " + how);
        if (bad && !rejected && (bk == 2 || (disk && bk == 1 && c.read_fail_sticky) || !R.ok)) violate(P, "error-not-reported", std::string(R.ok ? "failing disk" : "malformed input") + " not reported: " + how);
        if (bad && rejected && R.ok && !disk && !damaged) violate(P, "rejected", "well-formed input rejected: " + how);
    }
};
Scenario* make_ingest() { return new IngestScenario(false); }
Scenario* make_badinput() { return new IngestScenario(true); }
