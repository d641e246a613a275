#pragma once
#include "common.h"
#include <nmpc_fmpc/FmpcSolver.h>
using MatX = Eigen::MatrixXd;
using VecX = Eigen::VectorXd;

// Random nonlinear problem; the data are functions of the seed only.
template<int U, int G>
class FProb : public nmpc_fmpc::FmpcProblem<2, U, G>
{
public:
  using B = nmpc_fmpc::FmpcProblem<2, U, G>;
  using X = typename B::StateDimVector;
  using V = typename B::InputDimVector;
  using W = typename B::IneqDimVector;
  using XX = typename B::StateStateDimMatrix;
  using UU = typename B::InputInputDimMatrix;
  using XU = typename B::StateInputDimMatrix;
  using GX = typename B::IneqStateDimMatrix;
  using GU = typename B::IneqInputDimMatrix;
  Eigen::Matrix2d A, Q, P;
  MatX Bm, Rm, S, Cm, Dm;
  VecX off;
  double c, w, tw, cw, gq;
  int um, gm;
  FProb(Rng & r, double dt) : B(dt)
  {
    A = r.m(2, 2);
    Q = r.pd(2, 0.1);
    if(r.p(0.1)) Q -= 0.5 * Eigen::Matrix2d::Identity();
    P = r.pd(2, 0.2);
    Bm = r.m(2, 3);
    Rm = r.pd(3, 0.3);
    if(r.p(0.05)) Rm -= 0.6 * MatX::Identity(3, 3);
    S = r.p(0.5) ? r.m(2, 3, 0.2) : MatX::Zero(2, 3);
    Cm = r.m(4, 2);
    Dm = r.m(4, 3);
    off = r.v(4, 1.0) - 0.7 * VecX::Ones(4);
    c = r.p(0.7) ? r.u(-1, 1) : 0;
    w = r.p(0.3) ? r.u(-0.1, 0.1) : 0;
    tw = r.p(0.7) ? r.u(0.2, 2) : 0;
    cw = r.p(0.3) ? r.u(0, 0.3) : 0;
    gq = r.p(0.5) ? r.u(-0.3, 0.3) : 0;
    um = r.i(0, 2);
    gm = r.i(0, 4);
  }
  long idx(double t) const
  {
    return std::lround(t / this->dt()) + 3000;
  }
  int dim(double t) const
  {
    if constexpr(U == Eigen::Dynamic)
      return um == 0 ? 2 : um == 1 ? 1 + (int)(idx(t) % 2) : (int)(idx(t) % 3);
    else
      return U;
  }
  int gdim(double t) const
  {
    if constexpr(G == Eigen::Dynamic)
      return gm == 0 ? 3 : gm == 1 ? 1 + (int)(idx(t) % 2) : gm == 2 ? (int)((idx(t) + 1) % 3) : gm == 3 ? 0 : 2 * (int)(idx(t) % 2);
    else
      return G;
  }
  int inputDim(double t) const override
  {
    return dim(t);
  }
  int inputDim() const override
  {
    return B::inputDim();
  }
  int ineqDim(double t) const override
  {
    return gdim(t);
  }
  int ineqDim() const override
  {
    return B::ineqDim();
  }
  MatX Bt(double t, int n) const
  {
    return (1 + 0.2 * std::sin(tw * t)) * Bm.leftCols(n);
  }
  Eigen::Vector2d ref(double t) const
  {
    return Eigen::Vector2d(std::cos(tw * t), std::sin(2 * tw * t));
  }
  X stateEq(double t, const X & x, const V & u) const override
  {
    Eigen::Vector2d dx = A * x + Bt(t, (int)u.size()) * u;
    dx(1) += c * std::sin(x(0) + tw * t);
    return x + this->dt() * dx;
  }
  double runningCost(double t, const X & x, const V & u) const override
  {
    int n = (int)u.size();
    Eigen::Vector2d e = x - ref(t);
    return 0.5 * e.dot(Q * e) + 0.5 * u.dot(Rm.topLeftCorner(n, n) * u) + x.dot(S.leftCols(n) * u) + w * std::cos(x(0)) + cw * std::pow(x(1), 4);
  }
  double terminalCost(double t, const X & x) const override
  {
    Eigen::Vector2d e = x - ref(t);
    return 0.5 * e.dot(P * e) + w * std::cos(x(1));
  }
  W ineqConst(double t, const X & x, const V & u) const override
  {
    int n = gdim(t), m = (int)u.size();
    VecX g = Cm.topRows(n) * x + Dm.topLeftCorner(n, m) * u + off.head(n) + 0.1 * std::cos(tw * t) * VecX::Ones(n);
    for(int i = 0; i < n; i++) g(i) += gq * x(0) * x(0);
    return g;
  }
  void calcIneqConstDeriv(double t, const X & x, const V & u, Eigen::Ref<GX> gx, Eigen::Ref<GU> gu) const override
  {
    int n = gdim(t), m = (int)u.size();
    gx = Cm.topRows(n);
    for(int i = 0; i < n; i++) gx(i, 0) += 2 * gq * x(0);
    gu = Dm.topLeftCorner(n, m);
  }
  void calcStateEqDeriv(double t, const X & x, const V & u, Eigen::Ref<XX> fx, Eigen::Ref<XU> fu) const override
  {
    fx = Eigen::Matrix2d::Identity() + this->dt() * A;
    fx(1, 0) += this->dt() * c * std::cos(x(0) + tw * t);
    fu = this->dt() * Bt(t, (int)u.size());
  }
  void calcRunningCostDeriv(double t, const X & x, const V & u, Eigen::Ref<X> lx, Eigen::Ref<V> lu) const override
  {
    int n = (int)u.size();
    lx = Q * (x - ref(t)) + S.leftCols(n) * u;
    lx(0) -= w * std::sin(x(0));
    lx(1) += 4 * cw * std::pow(x(1), 3);
    lu = Rm.topLeftCorner(n, n) * u + S.leftCols(n).transpose() * x;
  }
  void calcRunningCostDeriv(double t, const X & x, const V & u, Eigen::Ref<X> lx, Eigen::Ref<V> lu, Eigen::Ref<XX> lxx, Eigen::Ref<UU> luu, Eigen::Ref<XU> lxu) const override
  {
    int n = (int)u.size();
    calcRunningCostDeriv(t, x, u, lx, lu);
    lxx = Q;
    lxx(0, 0) -= w * std::cos(x(0));
    lxx(1, 1) += 12 * cw * x(1) * x(1);
    luu = Rm.topLeftCorner(n, n);
    lxu = S.leftCols(n);
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx) const override
  {
    vx = P * (x - ref(t));
    vx(1) -= w * std::sin(x(1));
  }
  void calcTerminalCostDeriv(double t, const X & x, Eigen::Ref<X> vx, Eigen::Ref<XX> vxx) const override
  {
    calcTerminalCostDeriv(t, x, vx);
    vxx = P;
    vxx(1, 1) -= w * std::cos(x(1));
  }
};

template<int U, int G>
struct FCase
{
  using S = nmpc_fmpc::FmpcSolver<2, U, G>;
  using P = FProb<U, G>;
  using Var = typename S::Variable;
  using Status = typename S::Status;
  std::shared_ptr<P> prob;
  double t0;
  Eigen::Vector2d x0;
  Var v0;
  typename S::Configuration cfg;
  FCase(Rng & r)
  {
    static const double dts[] = {0.125, 0.01, 0.1, 0.5};
    double dt = dts[r.i(0, 3)];
    prob = std::make_shared<P>(r, dt);
    randomize(r);
  }
  void randomize(Rng & r)
  {
    double dt = prob->dt();
    t0 = r.p(0.3) ? 0 : r.u(-3, 5);
    if(U == Eigen::Dynamic || G == Eigen::Dynamic) t0 = std::round(t0 / dt) * dt;
    x0 = r.v(2, 2);
    cfg = typename S::Configuration();
    cfg.print_level = 0;
    cfg.horizon_steps = r.i(1, 6);
    cfg.max_iter = r.p(0.1) ? r.i(0, 1) : r.i(2, 12);
    cfg.kkt_error_thre = r.p(0.4) ? 1e-4 : std::pow(10, r.u(-8, 1.5));
    cfg.init_complementary_variable = r.p(0.4);
    cfg.update_barrier_eps = r.p(0.7);
    cfg.break_if_llt_fails = r.p(0.3);
    cfg.enable_line_search = r.p(0.4);
    cfg.merit_const_scale_from_lagrange_multipliers = r.p(0.5);
    cfg.check_nan = r.p(0.8);
    guess(r);
  }
  void guess(Rng & r)
  {
    double dt = prob->dt();
    int N = cfg.horizon_steps;
    v0 = Var(N);
    double sx = r.p(0.3) ? 0 : 1, sl = r.p(0.3) ? 0 : 2, lo = std::pow(10, r.u(-3, 0)), hi = r.u(0.5, 3);
    for(int i = 0; i <= N; i++)
    {
      v0.x_list[i] = r.v(2, sx);
      v0.lambda_list[i] = r.v(2, sl);
      if(i < N)
      {
        double t = t0 + i * dt;
        v0.u_list[i] = r.v(prob->dim(t), sx);
        int n = prob->gdim(t);
        VecX s(n), nu(n);
        for(int j = 0; j < n; j++)
        {
          s(j) = r.u(lo, lo + hi);
          nu(j) = r.u(lo, lo + hi);
        }
        v0.s_list[i] = s;
        v0.nu_list[i] = nu;
      }
    }
  }
  double tm(int i) const
  {
    return t0 + i * prob->dt();
  }
};

template<int U, int G>
bool samevar(const typename FCase<U, G>::Var & a, const typename FCase<U, G>::Var & b)
{
  if(a.x_list.size() != b.x_list.size() || a.u_list.size() != b.u_list.size() || a.lambda_list.size() != b.lambda_list.size() || a.s_list.size() != b.s_list.size() || a.nu_list.size() != b.nu_list.size()) return false;
  for(size_t i = 0; i < a.x_list.size(); i++)
    if(!bitsm(a.x_list[i], b.x_list[i]) || !bitsm(a.lambda_list[i], b.lambda_list[i])) return false;
  for(size_t i = 0; i < a.u_list.size(); i++)
    if(!bitsm(a.u_list[i], b.u_list[i]) || !bitsm(a.s_list[i], b.s_list[i]) || !bitsm(a.nu_list[i], b.nu_list[i])) return false;
  return true;
}

// derivatives and residuals at step i of variable v
template<int U, int G>
struct Lin
{
  MatX A, B, C, D, Lxx, Luu, Lxu;
  VecX Lx, Lu, xb, gb, rx, ru;
  Lin(const FCase<U, G> & c, const typename FCase<U, G>::Var & v, int i)
  {
    auto & p = *c.prob;
    double t = c.tm(i), dt = p.dt();
    int n = p.dim(t), m = p.gdim(t);
    typename FProb<U, G>::XX a, lxx;
    typename FProb<U, G>::XU b(2, n), lxu(2, n);
    typename FProb<U, G>::GX gx(m, 2);
    typename FProb<U, G>::GU gu(m, n);
    typename FProb<U, G>::X lx;
    typename FProb<U, G>::V lu(n);
    typename FProb<U, G>::UU luu(n, n);
    p.calcStateEqDeriv(t, v.x_list[i], v.u_list[i], a, b);
    p.calcIneqConstDeriv(t, v.x_list[i], v.u_list[i], gx, gu);
    p.calcRunningCostDeriv(t, v.x_list[i], v.u_list[i], lx, lu, lxx, luu, lxu);
    A = a;
    B = b;
    C = gx;
    D = gu;
    Lxx = lxx;
    Luu = luu;
    Lxu = lxu;
    Lx = lx;
    Lu = lu;
    xb = p.stateEq(t, v.x_list[i], v.u_list[i]) - v.x_list[i + 1];
    gb = VecX(p.ineqConst(t, v.x_list[i], v.u_list[i])) + VecX(v.s_list[i]);
    rx = -VecX(v.lambda_list[i]) + dt * Lx + A.transpose() * VecX(v.lambda_list[i + 1]) + C.transpose() * VecX(v.nu_list[i]);
    ru = dt * Lu + B.transpose() * VecX(v.lambda_list[i + 1]) + D.transpose() * VecX(v.nu_list[i]);
  }
};

template<int U, int G>
void term(const FCase<U, G> & c, const typename FCase<U, G>::Var & v, VecX & lx, MatX & lxx)
{
  int N = c.cfg.horizon_steps;
  typename FProb<U, G>::X a;
  typename FProb<U, G>::XX b;
  c.prob->calcTerminalCostDeriv(c.tm(N), v.x_list[N], a, b);
  lx = a;
  lxx = b;
}

template<int U, int G>
double kkt(const FCase<U, G> & c, const typename FCase<U, G>::Var & v)
{
  int N = c.cfg.horizon_steps;
  double e = (c.x0 - v.x_list[0]).squaredNorm();
  for(int i = 0; i < N; i++)
  {
    Lin<U, G> l(c, v, i);
    e += l.xb.squaredNorm() + l.gb.squaredNorm() + l.rx.squaredNorm() + l.ru.squaredNorm();
    for(int j = 0; j < v.s_list[i].size(); j++) e += std::pow(std::max(0.0, v.s_list[i](j) * v.nu_list[i](j)), 2);
  }
  VecX lx;
  MatX lxx;
  term<U, G>(c, v, lx, lxx);
  e += (lx - VecX(v.lambda_list[N])).squaredNorm();
  return std::sqrt(e);
}

template<int U, int G>
double barrier(const FCase<U, G> & c, const typename FCase<U, G>::Var & v, double prev)
{
  if(!c.cfg.update_barrier_eps) return prev;
  double a = 0;
  int n = 0;
  for(int i = 0; i < c.cfg.horizon_steps; i++)
  {
    a += v.s_list[i].dot(v.nu_list[i]);
    n += (int)v.s_list[i].size();
  }
  if(n > 0) a /= n;
  a *= 0.5;
  return a < 1e-8 ? 1e-8 : a > 1e6 ? 1e6 : a;
}

struct Amb
{
};

// Newton step of the perturbed KKT system, by a dense solve of the assembled system
template<int U, int G>
typename FCase<U, G>::Var newton(const FCase<U, G> & c, const typename FCase<U, G>::Var & v, double eps)
{
  int N = c.cfg.horizon_steps;
  std::vector<int> ox(N + 1), ol(N + 1), ou(N), os(N), on(N);
  int n = 0;
  double dt = c.prob->dt();
  for(int i = 0; i <= N; i++)
  {
    ox[i] = n;
    n += 2;
    ol[i] = n;
    n += 2;
    if(i < N)
    {
      ou[i] = n;
      n += (int)v.u_list[i].size();
      os[i] = n;
      n += (int)v.s_list[i].size();
      on[i] = n;
      n += (int)v.nu_list[i].size();
    }
  }
  MatX M = MatX::Zero(n, n);
  VecX b = VecX::Zero(n);
  int row = 0;
  M.block(row, ox[0], 2, 2).setIdentity();
  b.segment(row, 2) = c.x0 - v.x_list[0];
  row += 2;
  for(int i = 0; i < N; i++)
  {
    Lin<U, G> l(c, v, i);
    int nu = (int)v.u_list[i].size(), ng = (int)v.s_list[i].size();
    M.block(row, ox[i], 2, 2) = l.A;
    M.block(row, ou[i], 2, nu) = l.B;
    M.block(row, ox[i + 1], 2, 2) = -MatX::Identity(2, 2);
    b.segment(row, 2) = -l.xb;
    row += 2;
    M.block(row, ox[i], ng, 2) = l.C;
    M.block(row, ou[i], ng, nu) = l.D;
    M.block(row, os[i], ng, ng).setIdentity();
    b.segment(row, ng) = -l.gb;
    row += ng;
    for(int j = 0; j < ng; j++)
    {
      double s = v.s_list[i](j), q = v.nu_list[i](j);
      M(row + j, os[i] + j) = q;
      M(row + j, on[i] + j) = s;
      b(row + j) = eps - s * q;
    }
    row += ng;
    M.block(row, ox[i], 2, 2) = dt * l.Lxx;
    M.block(row, ou[i], 2, nu) = dt * l.Lxu;
    M.block(row, ol[i + 1], 2, 2) = l.A.transpose();
    M.block(row, on[i], 2, ng) = l.C.transpose();
    M.block(row, ol[i], 2, 2) = -MatX::Identity(2, 2);
    b.segment(row, 2) = -l.rx;
    row += 2;
    M.block(row, ou[i], nu, nu) = dt * l.Luu;
    M.block(row, ox[i], nu, 2) = dt * l.Lxu.transpose();
    M.block(row, ol[i + 1], nu, 2) = l.B.transpose();
    M.block(row, on[i], nu, ng) = l.D.transpose();
    b.segment(row, nu) = -l.ru;
    row += nu;
  }
  VecX lx;
  MatX lxx;
  term<U, G>(c, v, lx, lxx);
  M.block(row, ox[N], 2, 2) = lxx;
  M.block(row, ol[N], 2, 2) = -MatX::Identity(2, 2);
  b.segment(row, 2) = VecX(v.lambda_list[N]) - lx;
  row += 2;
  if(!M.allFinite() || !b.allFinite()) throw Amb();
  // close to the boundary the recursion is numerically ill-conditioned: no comparison there
  for(int i = 0; i < N; i++)
    for(int j = 0; j < v.s_list[i].size(); j++)
      if(v.s_list[i](j) < 1e-5 || v.nu_list[i](j) < 1e-9 || v.nu_list[i](j) / v.s_list[i](j) > 1e5) throw Amb();
  Eigen::FullPivLU<MatX> lu(M);
  if(lu.rcond() < 1e-9) throw Amb();
  VecX d = lu.solve(b);
  if(!d.allFinite() || d.cwiseAbs().maxCoeff() > 1e5) throw Amb();
  typename FCase<U, G>::Var o(N);
  for(int i = 0; i <= N; i++)
  {
    o.x_list[i] = d.segment(ox[i], 2);
    o.lambda_list[i] = d.segment(ol[i], 2);
    if(i < N)
    {
      o.u_list[i] = d.segment(ou[i], v.u_list[i].size());
      o.s_list[i] = d.segment(os[i], v.s_list[i].size());
      o.nu_list[i] = d.segment(on[i], v.nu_list[i].size());
    }
  }
  return o;
}

template<int U, int G>
double frac(const std::vector<typename FProb<U, G>::W> & s, const std::vector<typename FProb<U, G>::W> & d)
{
  double a = 1;
  for(size_t i = 0; i < s.size(); i++)
    for(int j = 0; j < s[i].size(); j++)
      if(d[i](j) < 0) a = std::min(a, 0.995 * s[i](j) / -d[i](j));
  return a;
}

struct Merit
{
  double obj = 0, con = 0, dobj = 0, dcon = 0, kink = 1e300;
};

inline double l1d(const VecX & f, const VecX & d)
{
  double a = 0;
  for(int i = 0; i < f.size(); i++) a += f(i) > 0 ? d(i) : f(i) < 0 ? -d(i) : std::abs(d(i));
  return a;
}
// at a kink the three partial directional derivatives are added with their absolute values (documented helper)
inline double l1d3(const VecX & f, std::initializer_list<VecX> ds)
{
  double a = 0;
  for(auto & d : ds) a += l1d(f, d);
  return a;
}

template<int U, int G>
Merit merit(const FCase<U, G> & c, const typename FCase<U, G>::Var & v, const typename FCase<U, G>::Var * dv, double eps, const typename FCase<U, G>::Var * at = nullptr)
{
  int N = c.cfg.horizon_steps;
  auto & p = *c.prob;
  double dt = p.dt();
  Merit m;
  VecX f = c.x0 - v.x_list[0];
  m.con += f.cwiseAbs().sum();
  if(dv) m.dcon += l1d(f, -VecX(dv->x_list[0]));
  for(int i = 0; i < N; i++)
  {
    double t = c.tm(i);
    Lin<U, G> l(c, v, i);
    m.obj += dt * p.runningCost(t, v.x_list[i], v.u_list[i]);
    for(int j = 0; j < v.s_list[i].size(); j++) m.obj -= eps * std::log(v.s_list[i](j));
    m.con += l.xb.cwiseAbs().sum() + l.gb.cwiseAbs().sum();
    if(dv)
    {
      VecX dx = dv->x_list[i], du = dv->u_list[i], ds = dv->s_list[i], dn = dv->x_list[i + 1];
      m.dobj += dt * (l.Lx.dot(dx) + l.Lu.dot(du));
      for(int j = 0; j < ds.size(); j++) m.dobj -= eps * ds(j) / v.s_list[i](j);
      m.dcon += l1d3(l.xb, {VecX(l.A * dx), VecX(l.B * du), VecX(-dn)});
      m.dcon += l1d3(l.gb, {VecX(l.C * dx), VecX(l.D * du), ds});
      for(int j = 0; j < l.xb.size(); j++) m.kink = std::min(m.kink, std::abs(l.xb(j)));
      for(int j = 0; j < l.gb.size(); j++) m.kink = std::min(m.kink, std::abs(l.gb(j)));
    }
  }
  for(int j = 0; j < 2; j++) m.kink = std::min(m.kink, std::abs(f(j)));
  m.obj += p.terminalCost(c.tm(N), v.x_list[N]);
  if(dv)
  {
    VecX lx;
    MatX lxx;
    term<U, G>(c, v, lx, lxx);
    m.dobj += lx.dot(VecX(dv->x_list[N]));
  }
  return m;
}

template<int U, int G>
double penalty(const FCase<U, G> & c, const typename FCase<U, G>::Var & v, const Merit & m)
{
  double s = 1e-3;
  if(c.cfg.merit_const_scale_from_lagrange_multipliers)
  {
    for(auto & l : v.lambda_list) s = std::max(s, l.cwiseAbs().maxCoeff());
    for(auto & l : v.nu_list)
      if(l.size() > 0) s = std::max(s, l.cwiseAbs().maxCoeff());
  }
  else
    s = std::max(m.dobj / (0.5 * m.con), s);
  return s;
}
