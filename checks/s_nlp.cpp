#include "s_world.hpp"
#include "nlp_common.hpp"
int s_nnlp() { return nlp_ncfg(); } bool s_dnlp(int) { return true; }
struct ActNlp : IActor { const NlpCfg& c; Store st; std::unique_ptr<INlp> own; INlp* q; NlpData d; bool have = false, solved = false;
    ActNlp(int cfg, int pat) : c(nlp_cfg(cfg)), st(c.size, pat) { q = c.place(st.p); name = "nlp " + c.name; dense = true; }
    ActNlp(const ActNlp& o, std::unique_ptr<INlp> n) : c(o.c), st(64, -1), own(std::move(n)), q(own.get()), d(o.d), have(o.have), solved(o.solved) { name = o.name; dense = o.dense; }
    std::unique_ptr<IActor> clone() const override { auto n = q->copy(); return std::unique_ptr<IActor>(n ? new ActNlp(*this, std::move(n)) : nullptr); }
    ~ActNlp() { if (!own) q->~INlp(); }
    void show(const NlpOut& o, std::vector<double>& v, bool all) { v.push_back(o.iter); v.push_back(o.qp_iter); v.push_back(o.viol); v.push_back(o.cost); v.push_back(o.pn); v.push_back(o.dn); v.push_back(o.status); (void)all; s_put(v, o.x); s_put(v, o.lam); }
    void peek(std::vector<double>& v) override { ++peeks; show(q->peek(), v, solved); }
    void step(uint64_t seed, std::vector<double>& v) override { Rng r(seed); bool fresh = !have || r.chance(0.5); NlpSet s; s.max_iter = r.pick({100, 30, 3, 1}); s.ls_max = r.pick({100, 10}); s.qp_max = r.pick({500, 100, 20}); s.qp_adaptive = r.chance(0.6); q->set(s);
        if (fresh) { d = nlp_problem(c, r.next() % 100000); q->data(d.p, d.b); have = true; } g_cb.reset(r.chance(0.15) ? r.irange(1, 4) : 0, r.irange(0, 2), r.irange(1, 60)); g_ls.reset(c.spied && r.chance(0.1) ? r.irange(1, 5) : 0, r.irange(1, 200)); g_ho = HessObs();
        VectorXd x = d.x0, l = VectorXd::Zero(c.ne + c.ni + c.n); bool g = fresh || r.chance(0.4); if (g && r.chance(0.3)) for (int i = 0; i < c.n; ++i) x(i) += r.uni(-.5, .5);
        NlpOut o = q->solve(g ? &x : nullptr, g ? &l : nullptr); ++solves; faults += g_cb.fired + g_ls.fired; g_cb.reset(); g_ls.reset(); solved = true; show(o, v, true); q->held(g_between, v); } };
std::unique_ptr<IActor> act_nlp(int cfg, int pattern) { return std::unique_ptr<IActor>(new ActNlp(cfg, pattern)); }
