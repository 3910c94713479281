#include "s_world.hpp"
#include "qp_common.hpp"
int s_nqp() { return qp_ncfg(); } bool s_dqp(int i) { return !qp_cfg(i).sparse; }
struct ActQp : IActor { const QpCfg& c; Store st; std::unique_ptr<IQp> own; IQp* q; VectorXd lx, ly; QpData last; bool prev = false, built = false;
    ActQp(int cfg, int pat) : c(qp_cfg(cfg)), st(c.size, pat) { q = c.place(st.p); name = "qp " + c.name; dense = !c.sparse; lx = VectorXd::Zero(c.n); ly = VectorXd::Zero(c.n + c.m); }
    ActQp(const ActQp& o, std::unique_ptr<IQp> n) : c(o.c), st(64, -1), own(std::move(n)), q(own.get()), lx(o.lx), ly(o.ly), last(o.last), prev(o.prev), built(o.built) { name = o.name; dense = o.dense; }
    std::unique_ptr<IActor> clone() const override { auto n = q->copy(); return std::unique_ptr<IActor>(n ? new ActQp(*this, std::move(n)) : nullptr); }
    ~ActQp() { if (!own) q->~IQp(); }
    void show(const QpOut& o, std::vector<double>& v, bool sol) { v.push_back(o.status); v.push_back(o.istatus); v.push_back(o.iter); v.push_back(o.rp); v.push_back(o.rd); if (sol) { s_put(v, o.x); s_put(v, o.y); } }
    void peek(std::vector<double>& v) override { ++peeks; show(q->peek(), v, built); }   // the solution of an object that has not solved anything is nobody's business
    void step(uint64_t seed, std::vector<double>& v) override { Rng r(seed); QpSet s; s.alpha = r.pick({1.0, 1.6, 0.8}); s.rho = r.pick({0.1, 1.0}); s.adaptive = r.chance(0.5); s.max_iter = r.pick({1000, 1000, 30, 7}); s.check = r.pick({25, 10, 1}); s.interval = r.pick({25, 10}); s.eps_rel = s.eps_abs = r.pick({1e-3, 1e-4});
        s.reuse = built && c.sparse && r.chance(0.4); uint64_t ps = r.next() % 100000; int carry = prev && r.chance(0.3) ? r.irange(1, 3) : 0; QpData d; if (carry) { d = last; qp_revector(d, ps, carry, true); } else d = qp_problem(c, ps, 5, r.chance(0.8) ? 0 : r.irange(1, 4), true); last = d; prev = true;
        if (r.chance(0.1)) faults += qp_poison(d, r.irange(1, 6), r.irange(0, 50)); g_ls.reset(c.spied && r.chance(0.15) ? r.irange(1, 5) : 0, r.irange(1, 60)); VectorXd xg = lx, yg = ly; int g = r.irange(0, 2); if (g == 2) { for (int i = 0; i < c.n; ++i) xg(i) = r.uni(-3, 3); for (int i = 0; i < c.n + c.m; ++i) yg(i) = r.uni(-3, 3); }
        q->set(s); QpOut o = q->solve(d, g ? &xg : nullptr, g ? &yg : nullptr); ++solves; faults += g_ls.fired; g_ls.reset(); built = true; lx = o.x; ly = o.y; show(o, v, true); v.push_back(double(o.solves)); v.push_back(double(o.factors)); q->held(g_between, v); } };
std::unique_ptr<IActor> act_qp(int cfg, int pattern) { return std::unique_ptr<IActor>(new ActQp(cfg, pattern)); }
