#pragma once
#include "common.h"
#include <nmpc_ddp/DDPSolver.h>
#ifndef ALLOW_FLAT
#  define ALLOW_FLAT 1
#endif

// Random nonlinear problem; the data are functions of the seed only.
template<int U>
class Prob : public nmpc_ddp::DDPProblem<2, U>
{
public:
  using B = nmpc_ddp::DDPProblem<2, U>;
  using X = typename B::StateDimVector;
  using V = typename B::InputDimVector;
  using XX = typename B::StateStateDimMatrix;
  using UU = typename B::InputInputDimMatrix;
  using XU = typename B::StateInputDimMatrix;
  Eigen::Matrix2d A, Q, P;
  Eigen::MatrixXd Bm, Rm, S;
  double c, w, nan_thr, gscale, tw, cw, qu = 0;
  int dimmode;
  Prob(Rng & r, double dt) : B(dt)
  {
    A = r.m(2, 2);
    Q = r.p(0.7) ? Eigen::MatrixXd(r.pd(2, 0.1)) : Eigen::MatrixXd(r.m(2, 2));
    Q = (0.5 * (Q + Q.transpose())).eval();
    P = r.pd(2, 0.2);
    Bm = r.m(2, 3);
    Rm = r.pd(3, r.p(0.8) ? 0.3 : 0.01);
    if(r.p(0.15)) Rm -= 0.6 * Eigen::MatrixXd::Identity(3, 3);
    S = r.p(0.5) ? r.m(2, 3, 0.3) : Eigen::MatrixXd::Zero(2, 3);
    c = r.p(0.7) ? r.u(-1, 1) : 0;
    w = r.p(0.4) ? r.u(-1, 1) : 0;
    nan_thr = r.p(0.15) ? r.u(0.5, 2.0) : 1e300;
    gscale = r.p(0.15) ? r.u(-2, 3) : 1;
    tw = r.p(0.7) ? r.u(0.2, 2) : 0;
    cw = r.p(0.3) ? r.u(0, 0.4) : 0;
    dimmode = r.i(0, 2);
    if(r.p(ALLOW_FLAT ? 0.06 : 0.0))
    {
      // flat quadratic model: only a quartic input cost (gradient and Hessian vanish at zero input)
      Q.setZero();
      P.setZero();
      S.setZero();
      Rm.setZero();
      w = cw = 0;
      qu = r.u(0.1, 2);
    }
  }
  int dim(double t) const
  {
    if constexpr(U == Eigen::Dynamic)
    {
      if(dimmode == 0) return 2;
      long k = std::lround(t / this->dt());
      if(dimmode == 1) return 1 + (int)(((k % 2) + 2) % 2);
      return (int)(((k % 3) + 3) % 3);
    }
    else
    {
      return U;
    }
  }
  int inputDim(double t) const override
  {
    return dim(t);
  }
  int inputDim() const override
  {
    return B::inputDim();
  }
  Eigen::MatrixXd Bt(double t, int n) const
  {
    return (1 + 0.2 * std::sin(tw * t)) * Bm.leftCols(n);
  }
  Eigen::Vector2d ref(double t) const
  {
    return Eigen::Vector2d(std::cos(tw * t), std::sin(2 * tw * t));
  }
  X stateEq(double t, const X & x, const V & u) const override
  {
    Eigen::Vector2d dx = A * x + Bt(t, (int)u.size()) * u;
    dx(1) += c * std::sin(x(0) + tw * t);
    return x + this->dt() * dx;
  }
  double runningCost(double t, const X & x, const V & u) const override
  {
    int n = (int)u.size();
    Eigen::Vector2d e = x - ref(t);
    if(std::abs(x(0)) > nan_thr) return std::numeric_limits<double>::quiet_NaN();
    return 0.5 * e.dot(Q * e) + 0.5 * u.dot(Rm.topLeftCorner(n, n) * u) + x.dot(S.leftCols(n) * u) + w * std::cos(x(0)) + cw * std::pow(x(1), 4)
           + (qu != 0 ? qu * u.array().pow(4).sum() : 0.0);
  }
  double terminalCost(double t, const X & x) const override
  {
    Eigen::Vector2d e = x - ref(t);
    return 0.5 * e.dot(P * e) + w * std::cos(x(1));
  }
  void calcStateEqDeriv(double t, const X & x, const V & u, Eigen::Ref<XX> fx, Eigen::Ref<XU> fu) const override
  {
    fx = Eigen::Matrix2d::Identity() + this->dt() * A;
    fx(1, 0) += this->dt() * c * std::cos(x(0) + tw * t);
    fu = this->dt() * Bt(t, (int)u.size());
  }
  void calcStateEqDeriv(double, const X &, const V &, Eigen::Ref<XX>, Eigen::Ref<XU>, std::vector<XX> &, std::vector<UU> &, std::vector<XU> &) const override
  {
    throw std::runtime_error("no second derivative");
  }
  void calcRunningCostDeriv(double t, const X & x, const V & u, Eigen::Ref<X> lx, Eigen::Ref<V> lu) const override
  {
    int n = (int)u.size();
    lx = Q * (x - ref(t)) + S.leftCols(n) * u;
    lx(0) -= w * std::sin(x(0));
    lx(1) += 4 * cw * std::pow(x(1), 3);
    lx *= gscale;
    lu = Rm.topLeftCorner(n, n) * u + S.leftCols(n).transpose() * x;
    if(qu != 0) lu.array() += 4 * qu * u.array().pow(3);
    lu *= gscale;
  }
  void calcRunningCostDeriv(double t, const X & x, const V & u, Eigen::Ref<X> lx, Eigen::Ref<V> lu, Eigen::Ref<XX> lxx, Eigen::Ref<UU> luu, Eigen::Ref<XU> lxu) const override
  {
    int n = (int)u.size();
    calcRunningCostDeriv(t, x, u, lx, lu);
    lxx = Q;
    lxx(0, 0) -= w * std::cos(x(0));
    lxx(1, 1) += 12 * cw * x(1) * x(1);
    luu = Rm.topLeftCorner(n, n);
    if(qu != 0) luu.diagonal().array() += 12 * qu * u.array().square();
    lxu = S.leftCols(n);
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx) const override
  {
    vx = P * (x - ref(t));
    vx(1) -= w * std::sin(x(1));
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx, Eigen::Ref<XX> vxx) const override
  {
    calcTerminalCostDeriv(t, x, vx);
    vxx = P;
    vxx(1, 1) -= w * std::cos(x(1));
  }
};

template<int U>
struct Case
{
  using Solver = nmpc_ddp::DDPSolver<2, U>;
  using P = Prob<U>;
  std::shared_ptr<P> prob;
  double t0, lim, off = 0;
  Eigen::Vector2d x0;
  std::vector<typename P::V> u0;
  typename Solver::Configuration cfg;
  Case(Rng & r, int force_constraint = -1, bool plain = false)
  {
    static const double dts[] = {0.125, 0.01, 0.1, 0.5};
    double dt = dts[r.i(0, 3)];
    prob = std::make_shared<P>(r, dt);
    t0 = r.p(0.3) ? 0 : r.u(-3, 5);
    if(U == Eigen::Dynamic) t0 = std::round(t0 / dt) * dt;
    x0 = r.v(2, 2);
    cfg.horizon_steps = r.p(0.08) ? 0 : r.i(1, 9);
    cfg.print_level = r.p(0.1) ? 3 : 0;
    cfg.with_input_constraint = force_constraint >= 0 ? (bool)force_constraint : r.p(0.3);
    cfg.max_iter = r.p(0.1) ? r.i(0, 1) : r.i(1, 12);
    cfg.reg_type = r.i(1, 2);
    cfg.initial_lambda = r.p(0.5) ? cfg.initial_lambda : std::pow(10, r.u(-8, 2));
    cfg.initial_dlambda = r.p(0.5) ? 1.0 : r.u(0.1, 4);
    if(r.p(0.3)) cfg.lambda_factor = r.u(1.1, 4);
    if(r.p(0.3)) cfg.lambda_min = std::pow(10, r.u(-8, -1));
    if(r.p(0.3)) cfg.lambda_max = std::pow(10, r.u(-2, 6));
    if(r.p(0.3)) cfg.lambda_thre = std::pow(10, r.u(-6, 1));
    if(r.p(0.3)) cfg.k_rel_norm_thre = std::pow(10, r.u(-6, 0));
    if(r.p(0.3)) cfg.cost_update_thre = std::pow(10, r.u(-9, 0));
    if(r.p(0.3)) cfg.cost_update_ratio_thre = r.u(0, 0.9);
    if(plain && r.p(0.5)) cfg.cost_update_ratio_thre = 0;
    if(r.p(0.4))
    {
      int n = r.i(1, 5);
      cfg.alpha_list.resize(n);
      double a = r.p(0.5) ? 1.0 : r.u(0.2, 3.0);
      for(int i = 0; i < n; i++)
      {
        cfg.alpha_list[i] = a;
        a *= r.u(0.1, 0.9);
      }
    }
    lim = r.u(0.05, 1.5);
    if(r.p(0.25)) off = r.u(-2.5, 2.5);
    double s = r.p(0.5) ? 0.0 : (r.p(0.5) ? lim : 3.0);
    for(int i = 0; i < cfg.horizon_steps; i++) u0.push_back(r.v(prob->dim(t0 + i * dt), s));
  }
  std::array<typename P::V, 2> limits(double t) const
  {
    std::array<typename P::V, 2> l;
    int n = prob->dim(t);
    l[0].resize(n);
    l[1].resize(n);
    for(int i = 0; i < n; i++)
    {
      l[0](i) = off - lim * (1 + 0.3 * std::sin(t + i));
      l[1](i) = off + lim * (1 + 0.2 * std::cos(2 * t - i));
    }
    return l;
  }
  template<class S>
  void setup(S & s, int max_iter) const
  {
    s.config() = cfg;
    s.config().max_iter = max_iter;
    auto self = *this;
    s.setInputLimitsFunc([self](double t) { return self.limits(t); });
  }
};
