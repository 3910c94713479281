// Search / replay / minimisation driver. Every run executes in a forked child, so that crashes, aborts and
// hangs of the code under test are observations attributed to one seed.
#include "sim.hpp"
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include <iostream>

namespace sim {
std::vector<Scenario>& registry() { static std::vector<Scenario> r; return r; }
Ctx*& cur() { static Ctx* c = nullptr; return c; }
void Ctx::log(const char* fmt, ...) { if (!verbose) return; va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n'); fflush(stdout); }
void Ctx::fail(const std::string& c, const char* fmt, ...) {
    if (failed) return; failed = true; cls = c; char b[1500]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); msg = b;
    if (verbose) { printf("!! %s: %s\n", cls.c_str(), msg.c_str()); fflush(stdout); } }
void on_assert(const char* e, const char* f, int line) noexcept {
    Ctx* c = cur(); if (!c) return;
    const char* base = strrchr(f, '/'); base = base ? base + 1 : f;
    bool lib = strstr(f, "eigen3/") != nullptr;
    if (c->st) c->st->add(std::string("assert.") + base);
    if (lib && c->strict_asserts) { std::string ex(e); c->fail("assert:" + std::string(base), "assertion %s failed at %s:%d", e, f, line); }
}
}
using namespace sim;

struct Shared {          // child -> parent
    volatile uint64_t seed; volatile int idx; volatile int done; volatile int failed; volatile int ran;
    volatile uint64_t hash; char cls[256]; char msg[1600];
};
static Shared* shm_new() { return (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static int cpu_limit = 60;

static std::vector<std::string> g_only; static bool g_thorough = false;
static const Scenario* find_scn(const std::string& n) { for (auto& s : registry()) if (s.name == n) return &s; return nullptr; }
static const Scenario& choose(uint64_t seed) {
    std::vector<const Scenario*> v; double w = 0;
    for (auto& s : registry()) { bool ok = g_only.empty(); for (auto& o : g_only) if (s.name == o) ok = true; if (ok) { v.push_back(&s); w += s.weight; } }
    Rng r(seed ^ 0xA5A5A5A5ull); double u = r.u01() * w; for (auto s : v) { if (u < s->weight) return *s; u -= s->weight; } return *v.back(); }
static Plan make_plan(uint64_t seed) { const Scenario& s = choose(seed); Plan p; p.scenario = s.name; p.seed = seed; Rng r(seed * 0x2545F4914F6CDD1Dull + 77); s.gen(r, p, g_thorough); return p; }
static void arm() { itimerval it{{0, 0}, {cpu_limit, 0}}; setitimer(ITIMER_PROF, &it, nullptr); }
static void execute(const Plan& p, Ctx& c) {
    arm(); cur() = &c; const Scenario* s = find_scn(p.scenario); if (!s) { fprintf(stderr, "unknown scenario %s\n", p.scenario.c_str()); _exit(97); }
    s->run(p, c); cur() = nullptr; if (c.st) { c.st->add("runs"); if (c.nontriv) c.st->sig.insert(c.sigh); } }

static std::string sigclass(int st) { if (WIFSIGNALED(st)) { int g = WTERMSIG(st); if (g == SIGPROF || g == SIGXCPU) return "hang"; return std::string("crash:") + (g == SIGSEGV ? "SIGSEGV" : g == SIGABRT ? "SIGABRT" : g == SIGFPE ? "SIGFPE" : g == SIGBUS ? "SIGBUS" : std::to_string(g)); }
    if (WIFEXITED(st) && WEXITSTATUS(st) != 0) return "crash:exit" + std::to_string(WEXITSTATUS(st)); return ""; }

struct Outcome { bool failed = false; std::string cls, msg; uint64_t hash = 0; };
static Outcome run_isolated(const Plan& p) {
    Shared* sh = shm_new(); memset((void*)sh, 0, sizeof *sh); fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) { Stats st; Ctx c; c.st = &st; execute(p, c); sh->failed = c.failed; sh->hash = c.hash; snprintf(sh->cls, 256, "%s", c.cls.c_str()); snprintf(sh->msg, 1600, "%s", c.msg.c_str()); sh->done = 1; _exit(0); }
    int st; waitpid(pid, &st, 0); Outcome o; std::string sc = sigclass(st);
    if (!sh->done) { o.failed = true; o.cls = sc.empty() ? "crash" : sc; o.msg = "the run ended the process: " + o.cls; }
    else { o.failed = sh->failed; o.cls = sh->cls; o.msg = sh->msg; o.hash = sh->hash; }
    munmap((void*)sh, sizeof *sh); return o; }

static void write_plan(const Plan& p, const Outcome& o, const std::string& path, const std::string& prop) {
    std::ofstream f(path); f << "# deterministic-simulation replay file\nproperty " << prop << "\nscenario " << p.scenario << "\nseed " << p.seed << "\nclass " << o.cls << "\nhash " << std::hex << o.hash << std::dec << "\n";
    std::istringstream m(o.msg); std::string l; while (std::getline(m, l)) f << "# " << l << "\n";
    for (auto& op : p.ops) { f << "op " << op.name; char b[64]; for (double v : op.a) { snprintf(b, 64, " %.17g", v); f << b; } f << "\n"; } }
static bool read_plan(const std::string& path, Plan& p, std::string& cls, uint64_t& hash) {
    std::ifstream f(path); if (!f) return false; std::string l; hash = 0;
    while (std::getline(f, l)) { std::istringstream s(l); std::string k; s >> k; if (k == "scenario") s >> p.scenario; else if (k == "seed") s >> p.seed; else if (k == "class") { s >> std::ws; std::getline(s, cls); } else if (k == "hash") s >> std::hex >> hash >> std::dec;
        else if (k == "op") { Op o; s >> o.name; std::string v; while (s >> v) o.a.push_back(strtod(v.c_str(), nullptr)); p.ops.push_back(o); } }
    return true; }

static Plan minimise(Plan p, const std::string& cls, double deadline, int& tries) {
    auto fails = [&](const Plan& q) { ++tries; Outcome o = run_isolated(q); return o.failed && o.cls == cls; };
    // drop chunks of operations, then simplify arguments towards 0
    // ops[0] is the configuration and stays
    for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2); chunk >= 1 && now() < deadline; chunk /= 2) {
        for (size_t i = 1; i < p.ops.size() && now() < deadline;) { Plan q = p; size_t e = std::min(p.ops.size(), i + chunk); q.ops.erase(q.ops.begin() + i, q.ops.begin() + e); if (fails(q)) p = q; else i += chunk; }
        if (chunk == 1) break; }
    for (size_t i = 0; i < p.ops.size(); ++i) for (size_t j = (i == 0 ? 1 : 0); j < p.ops[i].a.size() && now() < deadline; ++j) {
        if (p.ops[i].a[j] == 0) continue; Plan q = p; q.ops[i].a[j] = 0; if (fails(q)) { p = q; continue; }
        if (p.ops[i].a[j] > 1 && p.ops[i].a[j] < 1e9) { q = p; q.ops[i].a[j] = std::floor(p.ops[i].a[j] / 2); if (q.ops[i].a[j] >= 1 && fails(q)) p = q; } }
    return p; }

static std::vector<std::string> load_known(const std::string& f, const std::string& prop) {
    std::vector<std::string> v; std::ifstream in(f); std::string l;
    while (std::getline(in, l)) { // "known: property=ID class=<class>[ scenario=<s>] ..."
        if (l.compare(0, 6, "known:") != 0) continue; if (l.find("property=" + prop + " ") == std::string::npos) continue;
        size_t k = l.find("class="); if (k == std::string::npos) continue; std::string c = l.substr(k + 6); size_t e = c.find(" | "); if (e != std::string::npos) c = c.substr(0, e); v.push_back(c); }
    return v; }

int main(int argc, char** argv) {
    { int pers = personality(0xffffffff); if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_ASLR_TRIED")) { setenv("SIM_ASLR_TRIED", "1", 1); if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); } }
    std::map<std::string, std::string> o; for (int i = 1; i < argc; ++i) { std::string a = argv[i]; if (a.compare(0, 2, "--") == 0) { std::string k = a.substr(2); if (i + 1 < argc && strncmp(argv[i + 1], "--", 2) != 0) o[k] = argv[++i]; else o[k] = "1"; } }
    { std::istringstream s(o["only"]); std::string t; while (std::getline(s, t, ',')) if (!t.empty()) g_only.push_back(t); }
    g_thorough = o.count("thorough"); std::string prop = o.count("prop") ? o["prop"] : "?";
    if (o.count("cpu")) cpu_limit = atoi(o["cpu"].c_str());
    if (o.count("list")) { for (auto& s : registry()) printf("%s\n", s.name.c_str()); return 0; }
    if (o.count("replay")) { // exit 1 and print REPRODUCED when the recorded violation happens again
        Plan p; std::string cls; uint64_t h; if (!read_plan(o["replay"], p, cls, h)) { fprintf(stderr, "cannot read replay file\n"); return 2; }
        if (o.count("verbose")) { Stats st; Ctx c; c.st = &st; c.verbose = true; execute(p, c); printf("failed=%d class=%s hash=%llx\n%s\n", c.failed, c.cls.c_str(), (unsigned long long)c.hash, c.msg.c_str()); return c.failed; }
        Outcome r = run_isolated(p); bool same = r.failed && r.cls == cls; printf("%s class=%s hash=%llx (recorded %llx)\n%s\n", same ? "REPRODUCED" : r.failed ? "DIFFERENT" : "NOT-REPRODUCED", r.cls.c_str(), (unsigned long long)r.hash, (unsigned long long)h, r.msg.c_str());
        return same ? 1 : r.failed ? 3 : 0; }
    if (o.count("seed")) { g_thorough = o.count("thorough"); Plan p = make_plan(strtoull(o["seed"].c_str(), nullptr, 10)); Stats st; Ctx c; c.st = &st; c.verbose = o.count("verbose"); execute(p, c); printf("scenario=%s failed=%d class=%s hash=%llx\n%s\n", p.scenario.c_str(), c.failed, c.cls.c_str(), (unsigned long long)c.hash, c.msg.c_str()); if (c.verbose) for (auto& k : st.c) printf("%s=%g\n", k.first.c_str(), k.second); return c.failed; }
    if (o.count("plan")) { Plan p = make_plan(strtoull(o["plan"].c_str(), nullptr, 10)); printf("scenario %s seed %llu\n", p.scenario.c_str(), (unsigned long long)p.seed); for (auto& op : p.ops) { printf("%s", op.name.c_str()); for (double v : op.a) printf(" %.6g", v); printf("\n"); } return 0; }
    if (o.count("hashes")) { // determinism self-test: print seed hash pairs
        uint64_t s0 = strtoull(o["seed0"].c_str(), nullptr, 10); int n = atoi(o["n"].c_str()); for (int i = 0; i < n; ++i) { Plan p = make_plan(s0 + i); Outcome r = run_isolated(p); printf("%llu %llx %s\n", (unsigned long long)(s0 + i), (unsigned long long)r.hash, r.cls.c_str()); } return 0; }
    if (o.count("search")) {
        uint64_t s0 = strtoull(o["seed0"].c_str(), nullptr, 10); long n = atol(o["n"].c_str()); double secs = atof(o["secs"].c_str()); int w = atoi(o["worker"].c_str()), W = atoi(o["workers"].c_str());
        std::string out = o["out"]; auto known = load_known(o["known"], prop); double t0 = now(), dl = t0 + secs;
        std::map<std::string, double> counters; std::set<uint64_t> sigs; std::map<std::string, long> known_hits; std::map<std::string, uint64_t> known_seed; std::vector<uint64_t> samples;
        long i = w; int status = 0; std::string v_cls, v_msg, v_path; uint64_t v_seed = 0; int tries = 0; bool capped = false;
        long done_runs = 0; uint64_t hash_all = 0;
        const int CH = 200;
        while (i < n) { if (now() > dl) { capped = true; break; }
            Shared* sh = shm_new(); memset((void*)sh, 0, sizeof *sh); std::string tmp = out + ".tmp";
            pid_t pid = fork();
            if (pid == 0) { Stats st; long k = i; int cnt = 0; uint64_t ha = 0;
                for (; k < n && cnt < CH && now() < dl; k += W, ++cnt) { sh->seed = s0 + k; sh->idx = int(cnt); Plan p = make_plan(s0 + k); Ctx c; c.st = &st; execute(p, c); ha ^= c.hash * 31 + k; if (samples.size() < 1 && c.nontriv) samples.push_back(s0 + k);
                    if (c.failed) { sh->failed = 1; snprintf(sh->cls, 256, "%s", c.cls.c_str()); snprintf(sh->msg, 1600, "%s", c.msg.c_str()); ++cnt; break; } }
                itimerval z{{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, nullptr);
                sh->hash = ha; sh->ran = cnt; std::ofstream f(tmp); for (auto& q : st.c) { char b[64]; snprintf(b, 64, "%.17g", q.second); f << "C " << b << " " << q.first << "\n"; } for (auto q : st.sig) f << "S " << q << "\n"; f.close(); sh->done = 1; _exit(0); }
            int st; waitpid(pid, &st, 0);
            bool fail = false; std::string cls, msg; uint64_t seed = sh->seed;
            if (!sh->done) { fail = true; cls = sigclass(st); if (cls.empty()) cls = "crash"; msg = "the run ended the process: " + cls; i += long(W) * (sh->idx + 1); done_runs += sh->idx + 1; counters["runs"] += sh->idx + 1; }
            else { std::ifstream f(tmp); std::string l; while (std::getline(f, l)) { if (l[0] == 'C') { size_t sp = l.find(' ', 2); counters[l.substr(sp + 1)] += strtod(l.c_str() + 2, nullptr); } else if (l[0] == 'S' && sigs.size() < 400000) sigs.insert(strtoull(l.c_str() + 2, nullptr, 10)); }
                unlink(tmp.c_str()); hash_all ^= sh->hash; done_runs += sh->ran; i += long(W) * sh->ran; if (sh->ran == 0) { capped = true; munmap((void*)sh, sizeof *sh); break; } if (sh->failed) { fail = true; cls = sh->cls; msg = sh->msg; } }
            munmap((void*)sh, sizeof *sh);
            if (fail) { Plan p = make_plan(seed); std::string key = p.scenario + "/" + cls; bool kn = false; for (auto& q : known) if (q == key) kn = true;
                if (kn) { known_hits[key]++; if (!known_seed.count(key)) known_seed[key] = seed; continue; }
                Outcome first = run_isolated(p); if (!(first.failed && first.cls == cls)) { bool again = false; for (int a = 0; a < 3 && !again; ++a) { first = run_isolated(p); again = first.failed && first.cls == cls; } if (!again) { counters["unreproduced_failures"]++; fprintf(stderr, "seed %llu failed once (%s: %s) and not again\n", (unsigned long long)seed, cls.c_str(), msg.c_str()); continue; } }
                Plan m = minimise(p, cls, now() + atof(o.count("minsecs") ? o["minsecs"].c_str() : "20"), tries); Outcome mo = run_isolated(m); if (!(mo.failed && mo.cls == cls)) { m = p; mo = first; }
                v_path = o["replaydir"] + "/" + prop + "-" + std::to_string(seed) + ".replay"; write_plan(m, mo, v_path, prop); status = 1; v_cls = key; v_msg = mo.msg; v_seed = seed; break; } }
        std::ofstream f(out); f << "W " << (now() - t0) << "\nR " << done_runs << "\nK " << (capped ? 1 : 0) << "\nH " << hash_all << "\n";
        for (auto& q : counters) { char b[64]; snprintf(b, 64, "%.17g", q.second); f << "C " << b << " " << q.first << "\n"; } for (auto q : sigs) f << "S " << q << "\n";
        for (auto& q : known_hits) f << "N " << q.second << " " << known_seed[q.first] << " " << q.first << "\n";
        if (status) { for (auto& ch : v_msg) if (ch == '\n') ch = ' '; f << "V " << v_seed << " " << v_path << "\nVC " << v_cls << "\nVM " << v_msg << "\nVT " << tries << "\n"; }
        return status; }
    fprintf(stderr, "usage: --search|--replay FILE|--seed N|--hashes\n"); return 2;
}
