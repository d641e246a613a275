// FMPC internals read through a subclass: C09 C11 C13 C18
#include "fmpc_common.h"

template<int U, int G>
struct Probe : nmpc_fmpc::FmpcSolver<2, U, G>
{
  using B = nmpc_fmpc::FmpcSolver<2, U, G>;
  using B::B;
  typename B::Variable & v()
  {
    return this->variable_;
  }
  typename B::Variable & d()
  {
    return this->delta_variable_;
  }
  double eps() const
  {
    return this->barrier_eps_;
  }
  double mf() const
  {
    return this->merit_func_;
  }
  double md() const
  {
    return this->merit_deriv_;
  }
  double ms() const
  {
    return this->merit_const_scale_;
  }
  bool update()
  {
    return this->updateVariables();
  }
  double calc(const typename B::Variable & x) const
  {
    return this->calcMeritFunc(x);
  }
};

template<int U, int G>
bool fin(const typename FCase<U, G>::Var & v, double m)
{
  auto ok = [m](const auto & l)
  {
    for(auto & x : l)
      for(int j = 0; j < x.size(); j++)
        if(!(std::abs(x(j)) < m)) return false;
    return true;
  };
  return ok(v.x_list) && ok(v.u_list) && ok(v.lambda_list) && ok(v.s_list) && ok(v.nu_list);
}

template<int U, int G>
void c09(FCase<U, G> c, Rng & r)
{
  c.cfg.enable_line_search = false;
  Probe<U, G> s(c.prob);
  s.config() = c.cfg;
  s.config().max_iter = 1;
  s.solve(c.t0, c.x0, c.v0);
  auto v = c.v0;
  s.v() = v;
  int N = c.cfg.horizon_steps;
  typename FCase<U, G>::Var d(N);
  double big = std::pow(10, r.u(-2, 3));
  bool blow = r.p(0.1);
  for(int i = 0; i <= N; i++)
  {
    d.x_list[i] = r.v(2, big);
    d.lambda_list[i] = r.v(2, big);
    if(i < N)
    {
      d.u_list[i] = r.v((int)v.u_list[i].size(), big);
      d.s_list[i] = r.v((int)v.s_list[i].size(), big);
      d.nu_list[i] = r.v((int)v.nu_list[i].size(), big);
      if(r.p(0.2)) d.s_list[i] = -v.s_list[i] * r.u(0.9, 1.1);
      if(r.p(0.2)) d.nu_list[i] = -v.nu_list[i] * r.u(0.9, 1.1);
      if(r.p(0.2)) d.nu_list[i] = d.nu_list[i].cwiseAbs().eval();
      if(r.p(0.2)) d.s_list[i] = d.s_list[i].cwiseAbs().eval();
      if(blow && d.s_list[i].size() && r.p(0.3)) (r.p(0.5) ? d.s_list[i] : d.nu_list[i])(0) = -std::numeric_limits<double>::infinity();
    }
  }
  s.d() = d;
  double fs = frac<U, G>(v.s_list, d.s_list), fn = frac<U, G>(v.nu_list, d.nu_list);
  bool ok = s.update();
  auto & w = s.v();
  if(!ok)
  {
    CHECK((samevar<U, G>(v, w)), "update reports an error but changed the variables");
    CHECK(!(fs > 0 && fn > 0), "update rejected the valid step lengths " << fs << ", " << fn);
    return;
  }
  CHECK(fs > 0 && fn > 0, "update accepted the step lengths " << fs << ", " << fn);
  for(int i = 0; i <= N; i++)
  {
    auto pr = [&](const char * nm, const auto & o, const auto & n, const auto & dd, double a)
    {
      for(int j = 0; j < o.size(); j++)
        CHECK(std::abs(o(j) + a * dd(j) - n(j)) <= 1e-9 * (1 + std::abs(o(j)) + std::abs(a * dd(j))), nm << "[" << i << "](" << j << ") moved from " << o(j) << " to " << n(j) << " along " << dd(j) << ", step length should be " << a);
    };
    pr("x", v.x_list[i], w.x_list[i], d.x_list[i], fs);
    pr("lambda", v.lambda_list[i], w.lambda_list[i], d.lambda_list[i], fn);
    if(i < N)
    {
      pr("u", v.u_list[i], w.u_list[i], d.u_list[i], fs);
      pr("s", v.s_list[i], w.s_list[i], d.s_list[i], fs);
      pr("nu", v.nu_list[i], w.nu_list[i], d.nu_list[i], fn);
      CHECK((w.s_list[i].array() > 0).all() && (w.nu_list[i].array() > 0).all(), "non-positive slack or multiplier at step " << i);
      for(int j = 0; j < w.s_list[i].size(); j++)
        CHECK(w.s_list[i](j) >= 0.00499 * v.s_list[i](j) && w.nu_list[i](j) >= 0.00499 * v.nu_list[i](j), "fraction to the boundary not kept at step " << i << " entry " << j);
    }
  }
}

template<int U, int G>
void iter(const std::string & prop, FCase<U, G> c)
{
  using St = typename FCase<U, G>::Status;
  if(prop == "C13") c.cfg.enable_line_search = true;
  Probe<U, G> a(c.prob);
  a.config() = c.cfg;
  a.config().max_iter = 0;
  a.solve(c.t0, c.x0, c.v0);
  auto v = a.v();
  double eps = 1e-4;
  int N = c.cfg.horizon_steps;
  for(int k = 1; k <= c.cfg.max_iter; k++)
  {
    Probe<U, G> b(c.prob);
    b.config() = c.cfg;
    b.config().max_iter = k;
    auto st = b.solve(c.t0, c.x0, c.v0);
    if((int)b.traceDataList().size() != k) return;
    if(!fin<U, G>(v, 1e6)) return;
    eps = barrier<U, G>(c, v, eps);
    if(prop == "C18") CHECK(near(b.eps(), eps, 1e-12) && std::abs(b.eps() - eps) <= 1e-9 * eps, "barrier parameter of iteration " << k << " is " << b.eps() << ", expected " << eps);
    if(st != St::MaxIterationReached) return;
    auto & d = b.d();
    if(!fin<U, G>(d, 1e6)) return;
    if(prop == "C11")
    {
      bool cond = true;
      for(int i = 0; i < N; i++)
        for(int j = 0; j < v.s_list[i].size(); j++) cond = cond && v.s_list[i](j) > 1e-5 && v.nu_list[i](j) / v.s_list[i](j) < 1e5;
      if(cond)
      {
        double dt = c.prob->dt();
        auto chk = [&](const VecX & res, double sc, const char * what, int i)
        {
          if(res.size()) CHECK(res.cwiseAbs().maxCoeff() <= 1e-7 * (1 + sc), "iteration " << k << " step " << i << ": linearized " << what << " violated by " << res.cwiseAbs().maxCoeff());
        };
        auto mx = [](const auto & x) { return x.size() ? x.cwiseAbs().maxCoeff() : 0.0; };
        double gs = 0;
        for(int i = 0; i <= N; i++)
        {
          gs = std::max({gs, mx(d.x_list[i]), mx(d.lambda_list[i])});
          if(i < N) gs = std::max({gs, mx(d.u_list[i]), mx(d.s_list[i]), mx(d.nu_list[i]), mx(v.nu_list[i])});
        }
        // ill-conditioned recursions are compared only loosely
        double loose = 1;
        for(int i = 0; i < N; i++)
        {
          Lin<U, G> l(c, v, i);
          for(int j = 0; j < v.s_list[i].size(); j++) loose = std::max(loose, v.nu_list[i](j) / v.s_list[i](j));
        }
        gs *= loose;
        chk(c.x0 - v.x_list[0] - d.x_list[0], gs, "initial state", 0);
        for(int i = 0; i < N; i++)
        {
          Lin<U, G> l(c, v, i);
          VecX dx = d.x_list[i], du = d.u_list[i], ds = d.s_list[i], dn = d.nu_list[i], dl = d.lambda_list[i], dln = d.lambda_list[i + 1], s = v.s_list[i], q = v.nu_list[i];
          chk(l.A * dx + l.B * du + l.xb - VecX(d.x_list[i + 1]), gs, "dynamics", i);
          chk(l.C * dx + l.D * du + l.gb + ds, gs, "inequality constraints", i);
          chk((q.array() * ds.array() + s.array() * dn.array() + s.array() * q.array() - eps).matrix(), gs, "complementarity", i);
          chk(l.rx + dt * l.Lxx * dx + dt * l.Lxu * du + l.A.transpose() * dln + l.C.transpose() * dn - dl, gs, "stationarity in the state", i);
          VecX ru = l.ru + dt * l.Luu * du + dt * l.Lxu.transpose() * dx + l.B.transpose() * dln + l.D.transpose() * dn;
          chk(ru, gs, "stationarity in the input", i);
        }
        VecX lx;
        MatX lxx;
        term<U, G>(c, v, lx, lxx);
        chk(lx - VecX(v.lambda_list[N]) + lxx * VecX(d.x_list[N]) - VecX(d.lambda_list[N]), gs, "terminal stationarity", N);
      }
    }
    if(prop == "C13")
    {
      bool pos = true;
      for(int i = 0; i < N; i++) pos = pos && (v.s_list[i].array() > 1e-12).all();
      Merit m = merit<U, G>(c, v, &d, eps);
      if(pos && fin<U, G>(d, 1e4) && m.con > 1e-9)
      {
        double ps = penalty<U, G>(c, v, m);
        double sc = 1 + std::abs(m.obj) + ps * m.con;
        CHECK(b.ms() >= 1e-3 * (1 - 1e-12), "penalty scale " << b.ms() << " below its minimum");
        CHECK(std::abs(b.ms() - ps) <= 1e-6 * (1 + std::abs(ps)) * (1 + std::abs(m.dobj)), "penalty scale " << b.ms() << ", expected " << ps);
        ps = b.ms();
        CHECK(std::abs(b.mf() - (m.obj + ps * m.con)) <= 1e-8 * sc, "merit value " << b.mf() << ", expected " << m.obj + ps * m.con);
        CHECK(std::abs(b.calc(v) - b.mf()) <= 1e-8 * sc, "trial merit " << b.calc(v) << " and stored merit " << b.mf() << " differ at the same point");
        if(m.kink > 1e-9)
        {
          double dm = m.dobj + ps * m.dcon, ds = 1 + std::abs(m.dobj) + ps * std::abs(m.dcon);
          double dsc = 0;
          for(auto & x : d.x_list) dsc = std::max(dsc, x.cwiseAbs().maxCoeff());
          for(auto & x : d.u_list)
            if(x.size()) dsc = std::max(dsc, x.cwiseAbs().maxCoeff());
          CHECK(std::abs(b.md() - dm) <= 1e-7 * (ds + ps * dsc * N), "merit slope " << b.md() << ", expected " << dm);
        }
        // a trial point
        auto t = v;
        for(int i = 0; i <= N; i++)
        {
          t.x_list[i] += 0.1 * d.x_list[i];
          if(i < N)
          {
            t.u_list[i] += 0.1 * d.u_list[i];
            for(int j = 0; j < t.s_list[i].size(); j++) t.s_list[i](j) *= 1.3 + 0.1 * j;
          }
        }
        Merit q = merit<U, G>(c, t, nullptr, eps);
        CHECK(std::abs(b.calc(t) - (q.obj + ps * q.con)) <= 1e-8 * (1 + std::abs(q.obj) + ps * q.con), "trial merit " << b.calc(t) << ", expected " << q.obj + ps * q.con);
      }
    }
    v = b.v();
  }
}

// the documented L1 helper, including kinks
void helper(Rng & r)
{
  int n = r.i(0, 4), m = r.i(1, 3);
  VecX f = r.v(n);
  for(int i = 0; i < n; i++)
    if(r.p(0.3)) f(i) = 0;
  MatX J = r.m(n, m);
  VecX d = r.v(m);
  VecX jd = J * d;
  double e = l1d(f, jd);
  Eigen::Matrix<double, -1, 1> ff = f, dd = d;
  Eigen::Matrix<double, -1, -1> JJ = J;
  double v = nmpc_fmpc::l1NormDirectionalDeriv<-1, -1>(ff, JJ, dd);
  CHECK(near(v, e, 1e-12), "l1NormDirectionalDeriv gives " << v << ", the directional derivative is " << e);
}

template<int U, int G>
void one(const std::string & prop, Rng & r)
{
  FCase<U, G> c(r);
  if(prop == "C09")
    c09<U, G>(c, r);
  else
    iter<U, G>(prop, c);
  if(prop == "C13") helper(r);
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv,
                      [](const std::string & prop, uint64_t s)
                      {
                        Rng r(s);
                        if(s % 2)
                          one<2, 3>(prop, r);
                        else
                          one<Eigen::Dynamic, Eigen::Dynamic>(prop, r);
                      });
}
