// The scripted back ends (OSQP, QPMAD): what was handed over at the last solve and what is to be answered.
#ifndef BE_WORLD_HPP
#define BE_WORLD_HPP
#include <map>
#include <string>
#include <vector>
#include <Eigen/Dense>
struct BackEnd {
    // received
    long solves = 0, inits = 0, refused = 0, init_failed = 0; std::string misuse; Eigen::MatrixXd H, A; Eigen::VectorXd h, l, u, gx, gy; bool warmed = false; std::map<std::string, double> applied;
    // to answer
    int status = 0, iter = 0, rho_updates = 0; double rp = 0, rd = 0, rho = 0; Eigen::VectorXd x, y; bool fail_init = false; };
extern BackEnd g_be;
void be_misuse(const char* what);
#endif
