// Scenarios S01 (isolation), S02 (memory contents), S03 (static allocation).
#include "s_world.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <alloca.h>
#include <malloc.h>
#include <cstdlib>
using namespace sim;
Store::Store(size_t n, int pat) { p = aligned_alloc(64, (n + 63) / 64 * 64); unsigned char* b = (unsigned char*)p; static const int B[] = {0x00, 0xFF, 0xA5, 0x7F, 0x3F, 0xBF, 0x01}; if (pat == 7) { Rng r(n); for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)(r.next() & 255); } else memset(p, B[pat < 0 ? 2 : pat % 7], n); }
Store::~Store() { free(p); }
std::unique_ptr<IActor> act_make(int k, int cfg, int pat) { return k == AK_QP ? act_qp(cfg, pat) : k == AK_NLP ? act_nlp(cfg, pat) : act_mpc(cfg, pat); }
int act_count(int k) { return k == AK_QP ? s_nqp() : k == AK_NLP ? s_nnlp() : s_nmpc(); }
bool act_dense(int k, int c) { return k == AK_QP ? s_dqp(c) : k == AK_NLP ? s_dnlp(c) : s_dmpc(c); }
static const int KB[] = {0x00, 0xFF, 0xA5, 0x7F, 0x3F, 0xBF, 0x01, 0x55};
static __attribute__((noinline)) void stack_fill(int pat) { volatile unsigned char* p = (volatile unsigned char*)alloca(200000); for (int i = 0; i < 200000; ++i) p[i] = (unsigned char)KB[pat & 7]; }
enum { MAXA = 4, MAXS = 10, MAXV = 700 };
struct Rec { int n; char name[48]; uint64_t h; double v[MAXV]; };
struct Shm { volatile int done; int steps[MAXA]; long faults, solves, points, switches, refused, windows, refused_size; uint64_t sig; char name[MAXA][48]; Rec r[MAXA][MAXS]; };
struct Act { int kind, cfg; uint64_t seed; int steps; int pre = 0; uint64_t pseed = 0; };   // pre: operations of the common past of an object and its copies
static void record(Rec& r, const std::vector<double>& v) { r.n = std::min(int(v.size()), int(MAXV)); uint64_t h = 1469598103934665603ull; for (size_t i = 0; i < v.size(); ++i) { double d = v[i]; if (d != d) d = std::numeric_limits<double>::quiet_NaN(); if (i < MAXV) r.v[i] = d; const unsigned char* b = (const unsigned char*)&d; for (int k = 0; k < 8; ++k) { h ^= b[k]; h *= 1099511628211ull; } } r.h = h; }
// one task: build the object, then its operations
struct Task { Act a; Shm* s; int slot, pat; std::unique_ptr<IActor> o; int at = 0; bool busy = false;
    bool more() const { return at < a.steps; }
    void next() { busy = true; if (pat >= 0) stack_fill(pat); std::vector<double> v; if (!o) { o = act_make(a.kind, a.cfg, pat); snprintf(s->name[slot], 48, "%s", o->name.c_str()); if (pat >= 0) stack_fill(pat + 1); o->peek(v); }
        if (pat >= 0) stack_fill(pat); Rng r(a.seed * 977 + at); o->step(r.next(), v); record(s->r[slot][at], v); s->steps[slot] = ++at; busy = false; }
    // the common past of an object and its copies
    void past() { o = act_make(a.kind, a.cfg, pat); snprintf(s->name[slot], 48, "%s", o->name.c_str()); std::vector<double> v; for (int i = 0; i < a.pre; ++i) { Rng r(a.pseed * 977 + i); o->step(r.next(), v); } }
    void all() { while (more()) next(); fini(); }
    void fini() { if (o) { __sync_fetch_and_add(&s->faults, o->faults); __sync_fetch_and_add(&s->solves, o->solves); o.reset(); } } };
std::function<void()> g_between = [] {};
static Shm* shm() { return (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
// runs f in a process of its own, which has never executed library code before; true when it ended by itself
template<class F> static bool cold(Shm* s, int& st, F f) { fflush(stdout); pid_t p = fork(); if (p == 0) { cur() = nullptr; itimerval it{{0, 0}, {40, 0}}; setitimer(ITIMER_PROF, &it, nullptr); alarm(300); f(); s->done = 1; _exit(0); } st = 0; waitpid(p, &st, 0); return s->done; }
static std::vector<Act> actors(const Plan& p) { std::vector<Act> v; for (size_t i = 1; i < p.ops.size() && v.size() < MAXA; ++i) { const Op& o = p.ops[i]; if (o.name != "actor") continue; int k = ((o.in(0) % AK_COUNT) + AK_COUNT) % AK_COUNT; v.push_back({k, o.in(1) % act_count(k), o.u(2) + 1, std::max(1, std::min(int(MAXS), o.in(3)))}); } return v; }
static std::string sigstr(int st) { return WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)); }
static bool differ(const Rec& a, const Rec& b, std::string& d) { if (a.h == b.h) return false; char t[200]; if (a.n != b.n) { d = "different amount of output"; return true; } for (int i = 0; i < a.n; ++i) if (memcmp(&a.v[i], &b.v[i], 8)) { snprintf(t, 200, "output %d of %d is %.17g against %.17g", i, a.n, a.v[i], b.v[i]); d = t; return true; } d = "outputs differ"; return true; }
static void warm() { for (int k = 0; k < AK_COUNT; ++k) act_dense(k, 0); }

// while one caller holds what an accessor returned, another object is operated
static void hold_calls(std::vector<Task>& t, Shm* c, uint64_t seed) { static Rng r(1); static int depth; r = Rng(seed); depth = 0; g_between = [&t, c] { if (depth) return; std::vector<int> v; for (size_t i = 0; i < t.size(); ++i) if (t[i].more() && !t[i].busy) v.push_back(int(i)); if (v.empty()) return; ++depth; t[v[r.next() % v.size()]].next(); ++c->switches; --depth; }; }
static void hold_threads() { g_between = [] { for (int i = 0; i < 3; ++i) sched_yield_now(); }; }

// ---------------- S01 ----------------
static void run_s01(const Plan& p, Ctx& x) { warm(); auto as = actors(p); if (as.empty()) return; int mode = p.ops[0].in(0); int st; Shm* c = shm(); x.sig(mode);
    bool ok = cold(c, st, [&] { std::vector<Task> t(as.size()); for (size_t i = 0; i < as.size(); ++i) { t[i].a = as[i]; t[i].s = c; t[i].slot = int(i); t[i].pat = -1; }
        if (mode == 0) { hold_calls(t, c, p.ops[0].u(1) + 5); Rng r(p.ops[0].u(1) + 3); for (;;) { std::vector<int> v; for (size_t i = 0; i < t.size(); ++i) if (t[i].more()) v.push_back(int(i)); if (v.empty()) break; int k = v[r.next() % v.size()]; t[k].next(); ++c->switches; c->sig = c->sig * 31 + k; } for (auto& q : t) q.fini(); }
        else { hold_threads(); std::vector<std::function<void()>> f; for (auto& q : t) f.push_back([&q] { q.all(); }); SchedOut o = sched_run(p.ops[0].u(1) + 3, p.ops[0].in(2), f); c->points = o.points; c->switches = o.switches; c->sig = o.sig; } });
    std::vector<Shm*> solo; bool skip = false; for (size_t i = 0; i < as.size(); ++i) { Shm* s = shm(); solo.push_back(s); int s2; bool k = cold(s, s2, [&] { Task t; t.a = as[i]; t.s = s; t.slot = int(i); t.pat = -1; std::vector<std::function<void()>> f{[&t] { t.all(); }}; if (mode == 0) t.all(); else sched_run(1, 2, f); }); if (!k) { skip = true; x.probe("crashes_alone_not_compared"); } x.log("actor %zu (%s) alone: %s, %d operations", i, s->name[i], k ? "done" : sigstr(s2).c_str(), s->steps[i]); }
    x.log("together (mode %d): %s, %ld scheduling points, %ld switches", mode, ok ? "done" : sigstr(st).c_str(), c->points, c->switches);
    x.ticks(double(c->points)); x.probe("switches", double(c->switches)); if (c->faults) x.fault("numerical_or_callback_fault", double(c->faults)); if (mode) x.fault("preemption", double(c->switches)); else x.fault("interleaved_call", double(c->switches)); x.sig(int64_t(c->sig));
    if (!skip) { if (!ok) x.fail("crash-together", "%zu objects used together end the process (%s); each alone does not", as.size(), sigstr(st).c_str());
        for (size_t i = 0; i < as.size() && !x.failed; ++i) for (int k = 0; k < as[i].steps && !x.failed; ++k) { x.eval(); std::string d; x.ival(int64_t(solo[i]->r[i][k].h)); if (differ(c->r[i][k], solo[i]->r[i][k], d)) x.fail("influenced", "object %zu (%s): operation %d gives another answer when other objects are in use %s: %s when alone", i, solo[i]->name[i], k, mode ? "in other threads" : "on the same thread", d.c_str()); }
        if (as.size() > 1 && c->switches > 1) x.nontrivial(); }
    munmap(c, sizeof(Shm)); for (auto s : solo) munmap(s, sizeof(Shm)); }
static void gen_actor(Rng& r, Plan& p, int kind, int cfg, int mx) { p.ops.push_back({"actor", {double(kind), double(cfg), double(r.next() % 1000000), double(r.irange(1, mx))}}); }
static Reg s01({"s01_isolation", [](Rng& r, Plan& p, bool t) { int mode = r.chance(0.3) ? 0 : 1; p.ops.push_back({"cfg", {double(mode), double(r.next() % 1000000), double(r.irange(0, 3)), 0}}); int kind = r.irange(0, 2), cfg = r.irange(0, 999), n = r.irange(2, t ? 4 : 3);
    for (int i = 0; i < n; ++i) { if (i && r.chance(0.3)) { kind = r.irange(0, 2); cfg = r.irange(0, 999); } gen_actor(r, p, kind, cfg % act_count(kind), kind == AK_QP ? (t ? 8 : 5) : 3); } }, run_s01});

// ---------------- S02 ----------------
static void run_s02(const Plan& p, Ctx& x) { warm(); auto as = actors(p); if (as.empty()) return; Shm* s[2]; int st[2]; bool ok[2]; int pat[2] = {p.ops[0].in(0) & 7, p.ops[0].in(1) & 7}; if (pat[0] == pat[1]) pat[1] = (pat[1] + 1) & 7;
    for (int k = 0; k < 2; ++k) { s[k] = shm(); ok[k] = cold(s[k], st[k], [&] { mallopt(M_PERTURB, KB[pat[k]] ? KB[pat[k]] : 0x100); for (size_t i = 0; i < as.size(); ++i) { Task t; t.a = as[i]; t.s = s[k]; t.slot = int(i); t.pat = pat[k]; t.all(); } }); x.fault("memory_fill"); x.sig(pat[k]); }
    x.ticks(double(s[0]->solves)); if (s[0]->faults) x.fault("numerical_or_callback_fault", double(s[0]->faults)); x.log("fill %d: %s; fill %d: %s", pat[0], ok[0] ? "done" : sigstr(st[0]).c_str(), pat[1], ok[1] ? "done" : sigstr(st[1]).c_str());
    if (ok[0] != ok[1]) x.fail("crash-depends-on-memory", "with one content of fresh memory the process ends (%s), with another it does not", sigstr(ok[0] ? st[1] : st[0]).c_str());
    else if (!ok[0]) x.probe("crashes_always_not_compared"); else for (size_t i = 0; i < as.size() && !x.failed; ++i) for (int k = 0; k < as[i].steps && !x.failed; ++k) { x.eval(); x.nontrivial(); std::string d; x.ival(int64_t(s[0]->r[i][k].h)); if (differ(s[0]->r[i][k], s[1]->r[i][k], d)) x.fail("uninitialised", "%s: operation %d%s shows something that depends on what was in memory before (fill %#x against %#x): %s", s[0]->name[i], k, k ? "" : " (and the state of the new object)", KB[pat[0]], KB[pat[1]], d.c_str()); }
    for (int k = 0; k < 2; ++k) { x.sig(int64_t(s[k]->r[0][0].n)); munmap(s[k], sizeof(Shm)); } for (auto& a : as) { x.sig(a.kind * 64 + a.cfg); x.sig(a.steps); } }
static Reg s02({"s02_memory", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 7)), double(r.irange(0, 7)), 0, 0}}); int n = r.irange(1, t ? 4 : 2); for (int i = 0; i < n; ++i) { int kind = r.irange(0, 2); gen_actor(r, p, kind, r.irange(0, act_count(kind) - 1), kind == AK_QP ? 6 : 4); } }, run_s02});

// ---------------- S03 ----------------
static void run_s03(const Plan& p, Ctx& x) { warm(); auto as = actors(p); if (as.empty() || !act_dense(as[0].kind, as[0].cfg)) return; Shm* s = shm(); int st; int from = p.ops[0].in(0);
    bool ok = cold(s, st, [&] { Task t; t.a = as[0]; t.s = s; t.slot = 0; t.pat = -1; while (t.more()) { g_refuse = t.at >= from; if (g_refuse) ++s->windows; if (!t.o) { g_refuse = false; t.o = act_make(t.a.kind, t.a.cfg, -1); snprintf(s->name[0], 48, "%s", t.o->name.c_str()); g_refuse = from == 0; } t.next(); s->refused = g_refused; s->refused_size = long(g_refused_size); } g_refuse = false; t.fini(); s->refused = g_refused; });
    if (!ok) s->refused = std::max(s->refused, 0L); x.fault("heap_exhausted", double(s->windows)); x.eval(double(s->windows)); if (s->windows) x.nontrivial(); if (s->faults) x.fault("numerical_or_callback_fault", double(s->faults)); x.ticks(double(s->solves)); x.sig(as[0].kind * 64 + as[0].cfg); x.sig(as[0].steps); x.sig(from); x.sig(int64_t(s->r[0][0].h)); x.ival(int64_t(s->r[0][as[0].steps - 1].h)); x.log("%s: %s, %ld operations with an exhausted heap, %ld refused allocations", s->name[0], ok ? "done" : sigstr(st).c_str(), s->windows, s->refused);
    if (!ok || s->refused) x.fail("needs-heap", "%s: a dense, fixed-size object asked for memory during an operation %d or later while the heap was exhausted (%s)", s->name[0], from, ok ? ("refused " + std::to_string(s->refused) + ", first " + std::to_string(s->refused_size) + " bytes").c_str() : ("process ended: " + sigstr(st)).c_str());
    munmap(s, sizeof(Shm)); }
static Reg s03({"s03_heap", [](Rng& r, Plan& p, bool t) { p.ops.push_back({"cfg", {double(r.irange(0, 2)), 0, 0, 0}}); for (;;) { int kind = r.irange(0, 2), cfg = r.irange(0, act_count(kind) - 1); if (!act_dense(kind, cfg)) continue; gen_actor(r, p, kind, cfg, t ? 10 : 6); break; } }, run_s03});

// ---------------- S04: copies are complete and independent ----------------
// op "twin" {seed, steps}: one more object that continues from the common past; the first is the original, the others are copies of it
static void run_s04(const Plan& p, Ctx& x) { warm(); int k = ((p.ops[0].in(0) % AK_COUNT) + AK_COUNT) % AK_COUNT; std::vector<Act> as; for (size_t i = 1; i < p.ops.size() && as.size() < MAXA; ++i) if (p.ops[i].name == "twin") { const Op& o = p.ops[i]; as.push_back({k, p.ops[0].in(1) % act_count(k), o.u(0) + 1, std::max(1, std::min(int(MAXS), o.in(1))), std::max(0, p.ops[0].in(2)), p.ops[0].u(3) + 1}); } if (as.empty()) return;
    int mode = p.ops[0].in(4); int st; Shm* c = shm(); x.sig(k * 64 + as[0].cfg); x.sig(mode);
    bool ok = cold(c, st, [&] { std::vector<Task> t(as.size()); for (size_t i = 0; i < as.size(); ++i) { t[i].a = as[i]; t[i].s = c; t[i].slot = int(i); t[i].pat = -1; } t[0].past(); for (size_t i = 1; i < t.size(); ++i) { t[i].o = t[0].o->clone(); if (!t[i].o) { c->refused = 1; return; } }
        if (mode == 2) t[0].fini();       // the original is destroyed before its copies are used
        if (mode != 1) { hold_calls(t, c, p.ops[0].u(5) + 5); Rng r(p.ops[0].u(5) + 3); for (;;) { std::vector<int> v; for (size_t i = mode == 2; i < t.size(); ++i) if (t[i].more()) v.push_back(int(i)); if (v.empty()) break; int q = v[r.next() % v.size()]; t[q].next(); ++c->switches; c->sig = c->sig * 31 + q; } for (auto& q : t) q.fini(); }
        else { hold_threads(); std::vector<std::function<void()>> f; for (auto& q : t) f.push_back([&q] { q.all(); }); SchedOut o = sched_run(p.ops[0].u(5) + 3, p.ops[0].in(6), f); c->points = o.points; c->switches = o.switches; c->sig = o.sig; } });
    if (ok && c->refused) { x.probe("not_copyable"); munmap(c, sizeof(Shm)); return; }
    x.log("together (mode %d): %s, %ld switches", mode, ok ? "done" : sigstr(st).c_str(), c->switches); x.fault("copied_object", double(as.size() - 1)); if (mode == 1) x.fault("preemption", double(c->switches)); if (mode == 2) x.fault("original_destroyed"); x.ticks(double(c->solves)); if (c->faults) x.fault("numerical_or_callback_fault", double(c->faults)); x.sig(int64_t(c->sig));
    for (size_t i = mode == 2; i < as.size() && !x.failed; ++i) { Shm* s = shm(); int s2; bool kk = cold(s, s2, [&] { Task t; t.a = as[i]; t.s = s; t.slot = int(i); t.pat = -1; t.past(); t.all(); }); x.log("object %zu (%s) without copies: %s", i, s->name[i], kk ? "done" : sigstr(s2).c_str());
        if (!kk) x.probe("crashes_alone_not_compared"); else if (!ok) x.fail("crash-copy", "%s: using an object and its copies ends the process (%s)", s->name[i], sigstr(st).c_str());
        else for (int q = 0; q < as[i].steps && !x.failed; ++q) { x.eval(); if (as.size() > 1) x.nontrivial(); std::string d; x.ival(int64_t(s->r[i][q].h)); if (differ(c->r[i][q], s->r[i][q], d)) x.fail(i ? "copy-differs" : "original-disturbed", "%s: operation %d of %s after %d common operations differs from what the original does when no copy is taken: %s", s->name[i], q, i ? "a copy" : "the original", as[i].pre, d.c_str()); }
        munmap(s, sizeof(Shm)); }
    munmap(c, sizeof(Shm)); }
static Reg s04({"s04_copies", [](Rng& r, Plan& p, bool t) { int kind = r.irange(0, 2); p.ops.push_back({"cfg", {double(kind), double(r.irange(0, act_count(kind) - 1)), double(r.irange(0, 4)), double(r.next() % 1000000), double(r.irange(0, 2)), double(r.next() % 1000000), double(r.irange(0, 3))}}); int n = r.irange(2, t ? 4 : 3); for (int i = 0; i < n; ++i) p.ops.push_back({"twin", {double(r.next() % 1000000), double(r.irange(1, kind == AK_QP ? 5 : 3))}}); }, run_s04});
