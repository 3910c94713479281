// Force-included before every translation unit: routes Eigen's assertions to the simulator, so that
// a failed assertion is an observation of the run and not the end of the whole search process.
#ifndef SIM_PRE_HPP
#define SIM_PRE_HPP
namespace sim { void on_assert(const char* expr, const char* file, int line) noexcept; }
#define eigen_assert(x) do { if (!(x)) ::sim::on_assert(#x, __FILE__, __LINE__); } while (false)
#endif
