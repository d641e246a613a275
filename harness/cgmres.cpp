// C/GMRES: C15
#include "common.h"
#include <CgmresSolver.cpp>
using MatX = Eigen::MatrixXd;
using VecX = Eigen::VectorXd;
using CRef = Eigen::Ref<const VecX>;
using MRef = Eigen::Ref<VecX>;

struct Pb : nmpc_cgmres::CgmresProblem
{
  MatX A, B, Q, R, S;
  double w, c;
  Pb(Rng & r)
  {
    dim_x_ = r.i(1, 3);
    dim_u_ = r.i(1, 2);
    dim_c_ = r.i(0, 1);
    dim_uc_ = dim_u_ + dim_c_;
    A = r.m(dim_x_, dim_x_);
    B = r.m(dim_x_, dim_uc_);
    Q = r.pd(dim_x_, 0.1);
    R = r.pd(dim_uc_, 0.5);
    S = r.m(dim_x_, dim_x_);
    w = r.u(0.2, 2);
    c = r.u(-0.5, 0.5);
    x_initial_ = r.v(dim_x_);
    u_initial_ = r.v(dim_uc_);
  }
  VecX f(double t, const VecX & x, const VecX & u) const
  {
    VecX d = A * x + B * u;
    for(int i = 0; i < dim_x_; i++) d(i) += c * std::sin(w * t + x(i));
    return d;
  }
  VecX l(double t, const VecX & lm, const VecX & xu) const
  {
    VecX x = xu.head(dim_x_), u = xu.tail(dim_uc_);
    VecX d = -(Q * x) - A.transpose() * lm + c * (S * x) * std::cos(w * t) + 0.1 * B * u;
    return d;
  }
  VecX phi(double t, const VecX & x) const
  {
    return (1 + 0.3 * std::sin(w * t)) * (Q * x);
  }
  VecX h(double t, const VecX & x, const VecX & u, const VecX & lm) const
  {
    VecX d = R * u + B.transpose() * lm;
    for(int i = 0; i < dim_uc_; i++) d(i) += 0.1 * u(i) * u(i) * u(i) + 0.2 * std::cos(w * t) * x(0);
    return d;
  }
  void stateEquation(double t, const CRef & x, const CRef & u, MRef d) override
  {
    d = f(t, x, u);
  }
  void costateEquation(double t, const CRef & lm, const CRef & xu, MRef d) override
  {
    d = l(t, lm, xu);
  }
  void calcDphiDx(double t, const CRef & x, MRef d) override
  {
    d = phi(t, x);
  }
  void calcDhDu(double t, const CRef & x, const CRef & u, const CRef & lm, MRef d) override
  {
    d = h(t, x, u, lm);
  }
};

// an integrator of the harness, so that this property does not depend on those of the library
struct Ode : nmpc_cgmres::OdeSolver
{
  void solve(const StateEquation & eq, double t, const CRef & x, const CRef & u, double dt, MRef ret) override
  {
    VecX k1(x.size()), k2(x.size()), xx = x, uu = u;
    eq(t, xx, uu, k1);
    eq(t + dt / 2, xx + dt / 2 * k1, uu, k2);
    ret = xx + dt * k2;
  }
};
template<class F>
VecX step(F f, double t, const VecX & x, const VecX & u, double dt)
{
  VecX k1 = f(t, x, u);
  VecX k2 = f(t + dt / 2, VecX(x + dt / 2 * k1), u);
  return x + dt * k2;
}

MatX residual(const nmpc_cgmres::CgmresSolver & s, const Pb & p, double t, const VecX & x, const MatX & u)
{
  int N = s.horizon_divide_num_;
  double T = s.steady_horizon_duration_ * (1.0 - std::exp(-s.horizon_increase_ratio_ * t)), h = T / N;
  std::vector<VecX> X(N + 1), L(N + 1);
  X[0] = x;
  for(int i = 0; i < N; i++) X[i + 1] = step([&](double a, const VecX & b, const VecX & c) { return p.f(a, b, c); }, t + i * h, X[i], u.col(i), h);
  L[N] = p.phi(t + N * h, X[N]);
  MatX D(p.dim_uc_, N);
  for(int i = N - 1; i >= 0; i--)
  {
    VecX xu(p.dim_x_ + p.dim_uc_);
    xu << X[i], u.col(i);
    L[i] = step([&](double a, const VecX & b, const VecX & c) { return p.l(a, b, c); }, t + (i + 1) * h, L[i + 1], xu, -h);
    D.col(i) = p.h(t + i * h, X[i], u.col(i), L[i + 1]);
  }
  return D;
}

void run(const std::string &, uint64_t seed)
{
  Rng r(seed);
  auto p = std::make_shared<Pb>(r);
  nmpc_cgmres::CgmresSolver s(p, std::make_shared<Ode>());
  s.horizon_divide_num_ = r.p(0.1) ? 1 : r.i(2, 7);
  s.steady_horizon_duration_ = r.u(0.2, 2);
  s.horizon_increase_ratio_ = r.u(0.1, 2);
  s.dt_ = r.u(0.001, 0.05);
  s.finite_diff_delta_ = r.u(0.0005, 0.05);
  s.eq_zeta_ = r.u(1, 100);
  s.k_max_ = r.i(1, 6);
  s.setup();
  CHECK((s.u_list_.colwise() - s.u_).cwiseAbs().maxCoeff() == 0 && s.u_list_.cols() == s.horizon_divide_num_, "setup does not start from a constant input sequence");
  VecX D0 = p->h(0, p->x_initial_, s.u_, p->phi(0, p->x_initial_));
  if(D0.norm() < 1e3 && !(D0.norm() <= 1e-6))
  {
    // setup stops only at the tolerance or after its iteration limit; small well-conditioned problems converge
    CHECK(D0.norm() < 1e-2 || p->R.norm() > 50 || p->u_initial_.norm() > 10, "setup left the optimality residual " << D0.norm());
  }
  for(int i = 0; i < s.horizon_divide_num_; i++) s.u_list_.col(i) += r.v(p->dim_uc_, 0.5);
  int U = p->dim_uc_, N = s.horizon_divide_num_;
  double t = r.p(0.1) ? 0 : r.u(0, 4);
  VecX x = r.v(p->dim_x_, 2), nx = x + r.v(p->dim_x_, 0.05);
  // residual list, for an arbitrary input sequence
  MatX u1 = r.m(U, N), D1 = MatX::Zero(U, N);
  s.calcDhDuList(t, x, u1, D1);
  MatX want = residual(s, *p, t, x, u1);
  CHECK(nearm(D1, want, 1e-8), "residual list\n" << D1 << "\nexpected\n" << want);
  // two consecutive control updates
  for(int rep = 0; rep < 2; rep++)
  {
    MatX ul = s.u_list_;
    VecX du0 = s.delta_u_vec_;
    VecX u(U);
    s.calcControlInput(t, x, nx, u);
    double d = s.finite_diff_delta_;
    VecX xd = (1 - d / s.dt_) * x + (d / s.dt_) * nx;
    MatX D = residual(s, *p, t, x, ul), Dd = residual(s, *p, t + d, xd, ul);
    VecX Dv = Eigen::Map<VecX>(D.data(), D.size()), Ddv = Eigen::Map<VecX>(Dd.data(), Dd.size());
    VecX eb = ((1 - s.eq_zeta_ * d) * Dv - Ddv) / d;
    auto op = [&](const VecX & v) -> VecX
    {
      MatX q = ul;
      for(int i = 0; i < N; i++) q.col(i) += d * v.segment(i * U, U);
      MatX E = residual(s, *p, t + d, xd, q);
      return (VecX(Eigen::Map<VecX>(E.data(), E.size())) - Ddv) / d;
    };
    // the operator the solver offers to GMRES
    MatX ul_after = s.u_list_;
    s.u_list_ = ul;
    VecX v = r.v(U * N);
    VecX av = s.eqAmulFunc(v), aw = op(v);
    s.u_list_ = ul_after;
    double sc = 1e-8 * (1 + Ddv.cwiseAbs().maxCoeff()) / d;
    CHECK((av - aw).cwiseAbs().maxCoeff() <= sc + 1e-7 * aw.cwiseAbs().maxCoeff(), "operator value " << av.transpose() << " expected " << aw.transpose());
    nmpc_cgmres::Gmres g;
    VecX y = du0;
    nmpc_cgmres::Gmres::AmulFunc fn = [&](const Eigen::Ref<const VecX> & z) -> VecX { return op(z); };
    g.solve(fn, eb, y, s.k_max_, 1e-10);
    double ys = 1 + y.cwiseAbs().maxCoeff();
    bool ok = y.allFinite() && ys < 1e6;
    if(ok)
    {
      // the continuation equation is solved as well as the reference solves it
      double e0 = (eb - op(y)).norm(), e1 = (eb - op(s.delta_u_vec_)).norm();
      CHECK(e1 <= e0 * 1.001 + 1e-5 * (eb.norm() + 1) / std::min(1.0, d * 100), "continuation equation solved with residual " << e1 << ", reference " << e0);
      for(int i = 0; i < N; i++)
      {
        VecX w = VecX(ul.col(i)) + s.dt_ * s.delta_u_vec_.segment(i * U, U);
        CHECK(nearm(VecX(s.u_list_.col(i)), w, 1e-9), "input " << i << " is " << s.u_list_.col(i).transpose() << " expected " << w.transpose());
      }
      CHECK(nearm(u, VecX(s.u_list_.col(0)), 0), "returned input is not the first of the sequence");
    }
    t += s.dt_;
    x = nx;
    nx = x + r.v(p->dim_x_, 0.05);
    if(!ok) return;
  }
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv, run);
}
