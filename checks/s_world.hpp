// The S world: several independent library objects ("actors") of any kind in one process. Seams: the thread schedule
// (compiler-inserted scheduling points), memory contents (storage, heap and stack fill) and the allocator.
#ifndef S_WORLD_HPP
#define S_WORLD_HPP
#include "../sim/sim.hpp"
#include "ls_seam.hpp"
enum { AK_QP = 0, AK_NLP = 1, AK_MPC = 2, AK_COUNT = 3 };
// a step is one seeded operation of a caller (new data, solve, prediction, ...); everything it shows is appended to out
struct IActor { std::string name; bool dense = false; long faults = 0, solves = 0, peeks = 0; virtual ~IActor() {} virtual void step(uint64_t seed, std::vector<double>& out) = 0; virtual void peek(std::vector<double>& out) = 0; virtual std::unique_ptr<IActor> clone() const = 0; };   // clone: null when the object cannot be copied
// storage the objects are built in: pattern < 0 leaves the memory as it comes
struct Store { void* p = nullptr; explicit Store(size_t n, int pattern); ~Store(); };
std::unique_ptr<IActor> act_make(int kind, int cfg, int pattern);
std::unique_ptr<IActor> act_qp(int cfg, int pattern);
std::unique_ptr<IActor> act_nlp(int cfg, int pattern);
std::unique_ptr<IActor> act_mpc(int cfg, int pattern);
int act_count(int kind); bool act_dense(int kind, int cfg); void act_warm();
int s_nqp(); int s_nnlp(); int s_nmpc(); bool s_dqp(int); bool s_dnlp(int); bool s_dmpc(int);
// scheduler
struct SchedOut { long points = 0, switches = 0; uint64_t sig = 0; };
SchedOut sched_run(uint64_t seed, int scale, std::vector<std::function<void()>> tasks);
void sched_yield_now();                                  // lets another thread run (nothing outside sched_run)
extern std::function<void()> g_between;                  // what happens between taking an accessor's result and looking at it
// allocator seam
extern SIM_TLS bool g_refuse; extern long g_refused, g_windows; extern size_t g_refused_size;
template<class V> void s_put(std::vector<double>& o, const V& v) { for (int i = 0; i < int(v.size()); ++i) o.push_back(double(v.data()[i])); }
#endif
