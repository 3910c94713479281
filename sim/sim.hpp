// Deterministic simulation core: one 64-bit seed -> one plan (configuration + operation/fault list)
// -> one exactly repeatable execution with a hashed trace.
#ifndef SIM_HPP
#define SIM_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <limits>
#include <memory>

namespace sim {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u01(); }
    int    irange(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }     // inclusive
    bool   chance(double p) { return u01() < p; }
    double normal() { double s_ = 0; for (int i = 0; i < 12; ++i) s_ += u01(); return s_ - 6.0; } // Irwin-Hall: no libm
    double logu(double a, double b) { return a * std::exp(u01() * std::log(b / a)); }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + next() % l.size()); }
    uint64_t sub() { return next() >> 12; }     // 52 bits: survives a double
};

struct Op { std::string name; std::vector<double> a;
    double at(size_t i) const { return i < a.size() ? a[i] : 0.0; }
    int    in(size_t i) const { return int(at(i)); }
    uint64_t u(size_t i) const { return uint64_t(at(i)); } };

struct Plan { std::string scenario; uint64_t seed = 0; std::vector<Op> ops; };

// counters that are merged over all runs and written to the evidence file
struct Stats {
    std::map<std::string, double> c;      // counters (faults fired, probes, evaluations ...)
    std::set<uint64_t> sig;               // distinct behaviour signatures
    void add(const std::string& k, double v = 1) { c[k] += v; }
};

struct Ctx {
    Stats* st = nullptr;
    bool verbose = false;
    uint64_t hash = 1469598103934665603ull;   // FNV-1a over everything traced
    uint64_t sigh = 1469598103934665603ull;   // coarse behaviour signature (op kinds, faults fired, outcomes)
    bool failed = false;
    bool strict_asserts = true;
    std::string cls, msg;

    void bytes(const void* p, size_t n) { const unsigned char* b = (const unsigned char*)p;
        for (size_t i = 0; i < n; ++i) { hash ^= b[i]; hash *= 1099511628211ull; } }
    void val(double v) { if (v != v) v = std::numeric_limits<double>::quiet_NaN(); if (v == 0) v = 0; bytes(&v, sizeof v); }
    void ival(int64_t v) { bytes(&v, sizeof v); }
    template<class V> void vec(const V& v) { for (int i = 0; i < int(v.size()); ++i) val(double(v.data()[i])); }
    void str(const std::string& s) { bytes(s.data(), s.size()); }
    void sig(int64_t v) { for (int i = 0; i < 8; ++i) { sigh ^= (v >> (8 * i)) & 255; sigh *= 1099511628211ull; } }
    void fault(const std::string& k, double n = 1) { if (st) st->add("fault." + k, n); sig(int64_t(std::hash<std::string>()(k))); }
    void probe(const std::string& k, double n = 1) { if (st) st->add("probe." + k, n); }
    void eval(double n = 1) { if (st) st->add("evaluations", n); }
    void nontrivial() { nontriv = true; }
    void ticks(double t) { if (st) st->add("sim_time", t); }
    void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
    // first failure wins; cls identifies the violation (used by minimisation, replay and known findings)
    void fail(const std::string& cls_, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
    bool nontriv = false;
};

struct Scenario {
    std::string name;
    std::function<void(Rng&, Plan&, bool thorough)> gen;
    std::function<void(const Plan&, Ctx&)> run;
    double weight = 1;
};
std::vector<Scenario>& registry();
struct Reg { Reg(const Scenario& s) { registry().push_back(s); } };

Ctx*& cur();   // context of the run in progress (null outside runs)

inline bool bad(double v) { return !(v - v == 0); }
} // namespace sim
#endif
