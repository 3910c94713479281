#include "s_world.hpp"
#include "mpc_common.hpp"
int s_nmpc() { return mpc_ncfg(); } bool s_dmpc(int i) { return !mpc_cfg(i).sparse; }
struct ActMpc : IActor { const MpcCfg& c; const MpcDim& q; Store st; std::unique_ptr<IMpc> own; IMpc* m; bool init = false; double t0 = 0;
    ActMpc(int cfg, int pat) : c(mpc_cfg(cfg)), q(c.q), st(c.size, pat) { m = c.place(st.p); name = "mpc " + c.name; dense = !c.sparse; }
    ActMpc(const ActMpc& o, std::unique_ptr<IMpc> n) : c(o.c), q(c.q), st(64, -1), own(std::move(n)), m(own.get()), init(o.init), t0(o.t0) { name = o.name; dense = o.dense; }
    std::unique_ptr<IActor> clone() const override { auto n = m->copy(); return std::unique_ptr<IActor>(n ? new ActMpc(*this, std::move(n)) : nullptr); }
    ~ActMpc() { if (!own) m->~IMpc(); }
    VectorXd rnd(Rng& r, int n, double a, double b) { VectorXd v(n); for (int i = 0; i < n; ++i) v(i) = r.uni(a, b); return v; }
    void peek(std::vector<double>& v) override { ++peeks; MpcOut o = m->peek(); v.push_back(o.status); v.push_back(o.iter); v.push_back(o.qp_iter); v.push_back(o.viol); v.push_back(o.cost); v.push_back(o.pn); v.push_back(o.dn); MpcState s = m->state(); s_put(v, s.lbx); s_put(v, s.ubx); s_put(v, s.lbg); s_put(v, s.ubg); s_put(v, s.d); s_put(v, s.times); v.push_back(s.t0); v.push_back(s.tf); MpcView w = m->view(); s_put(v, w.X); s_put(v, w.U); s_put(v, w.p); s_put(v, w.dual); }
    void step(uint64_t seed, std::vector<double>& v) override { Rng r(seed); MpcSet s; s.max_iter = r.pick({10, 4, 1}); s.ls_max = r.pick({10, 3}); s.qp_max = r.pick({300, 40}); m->settings(s);
        if (!init) { VectorXd b = VectorXd::Constant(q.nx, 4); m->set(ST_XB, -b, b); m->set(ST_XFB, -b, b); VectorXd ub = VectorXd::Constant(q.nu, 1.5); m->set(ST_UB, -ub, ub); if (q.ng) m->set(ST_GB, VectorXd::Constant(q.ng, -5), VectorXd::Constant(q.ng, 5)); if (q.np) m->set(ST_PB, VectorXd::Constant(q.np, -.5), VectorXd::Constant(q.np, .5)); VectorXd d(2); d << 1.0, 0.3; m->set(ST_D, d, d); init = true; }
        if (r.chance(0.4)) { t0 += r.uni(0, 2); VectorXd a(1), b(1); a(0) = t0; b(0) = t0 + r.uni(1, 3); m->set(ST_TIME, a, b); } if (r.chance(0.2)) { VectorXd d(2); d << r.uni(.6, 1.4), r.uni(-.5, .5); m->set(ST_D, d, d); }
        if (r.chance(0.25)) { m->set(ST_XG, VectorXd::Zero(q.varx()), VectorXd()); m->set(ST_UG, VectorXd::Zero(q.varu()), VectorXd()); m->set(ST_LG, VectorXd::Zero(q.ndual()), VectorXd()); if (q.np) m->set(ST_PG, VectorXd::Zero(q.np), VectorXd()); } if (r.chance(0.15)) { VectorXd ub = VectorXd::Constant(q.nu, r.uni(.5, 2)); m->set(ST_UB, -ub, ub); }
        m->set(ST_X0, rnd(r, q.nx, -1, 1), VectorXd()); g_oc.reset(r.chance(0.12) ? r.irange(1, 3) : 0, r.irange(0, 3), r.irange(1, 200)); g_ls.reset(c.spied && r.chance(0.1) ? r.irange(1, 5) : 0, r.irange(1, 200)); MpcOut o = m->solve(); ++solves; faults += g_oc.fired + g_ls.fired; g_oc.reset(); g_ls.reset(); (void)o; peek(v);
        MpcState b = m->state(); for (int i = 0; i < 3; ++i) { double t = b.t0 + r.u01() * (b.tf - b.t0); s_put(v, m->x_at(t)); s_put(v, m->u_at(t)); } m->held(g_between, v); } };
std::unique_ptr<IActor> act_mpc(int cfg, int pattern) { return std::unique_ptr<IActor>(new ActMpc(cfg, pattern)); }
