#ifndef NLP_COMMON_HPP
#define NLP_COMMON_HPP
#include "nlp_world.hpp"
using namespace sim; using Eigen::VectorXd; using Eigen::MatrixXd;
static const double QINF = std::numeric_limits<double>::infinity();
const NlpCfg& nlp_cfg(int i); int nlp_ncfg();
struct NlpData { VectorXd p, x0; NlpBounds b; };
NlpData nlp_problem(const NlpCfg& c, uint64_t pseed);
struct NlpKkt { bool finite; double viol, stat, comp, gscale, yscale; };
NlpKkt nlp_kkt(const NlpCfg& c, const NlpData& d, const NlpOut& o);
#endif
