// DDP against an independent implementation of one iteration (public interface only): C03 C04 C05
#define ALLOW_FLAT 0 // ill-conditioned gains
#include "ddp_common.h"
#include <nmpc_ddp/BoxQP.h>
using MatX = Eigen::MatrixXd;
using VecX = Eigen::VectorXd;

template<int U>
struct Run
{
  bool ret = false;
  typename nmpc_ddp::DDPSolver<2, U>::ControlData cd;
  std::vector<typename nmpc_ddp::DDPSolver<2, U>::TraceData> tr;
};
template<int U>
Run<U> fresh(const Case<U> & c, int max_iter)
{
  nmpc_ddp::DDPSolver<2, U> s(c.prob);
  c.setup(s, max_iter);
  Run<U> r;
  r.ret = s.solve(c.t0, c.x0, c.u0);
  r.cd = s.controlData();
  r.tr = s.traceDataList();
  return r;
}

struct Amb
{
};

struct Ref
{
  std::vector<VecX> k;
  std::vector<MatX> K;
  double d0 = 0, d1 = 0;
  bool ok = true;
};

// minimizer of 1/2 x'Hx + g'x in [lo,hi], H positive definite, by enumeration of the active sets
inline VecX boxmin(const MatX & H, const VecX & g, const VecX & lo, const VecX & hi, std::vector<int> & freei)
{
  int n = (int)g.size();
  int tot = 1;
  for(int i = 0; i < n; i++) tot *= 3;
  for(int code = 0; code < tot; code++)
  {
    std::vector<int> st(n), F;
    int q = code;
    VecX x = VecX::Zero(n);
    for(int i = 0; i < n; i++)
    {
      st[i] = q % 3;
      q /= 3;
      if(st[i] == 0) F.push_back(i);
      if(st[i] == 1) x(i) = lo(i);
      if(st[i] == 2) x(i) = hi(i);
    }
    if(!F.empty())
    {
      MatX Hf(F.size(), F.size());
      VecX gf(F.size());
      VecX gg = g + H * x;
      for(size_t i = 0; i < F.size(); i++)
      {
        gf(i) = gg(F[i]);
        for(size_t j = 0; j < F.size(); j++) Hf(i, j) = H(F[i], F[j]);
      }
      VecX xf = -Hf.fullPivLu().solve(gf);
      for(size_t i = 0; i < F.size(); i++) x(F[i]) = xf(i);
    }
    VecX gr = g + H * x;
    bool good = true;
    double marg = 1e300, sc = 1 + gr.cwiseAbs().maxCoeff() + x.cwiseAbs().maxCoeff();
    for(int i = 0; i < n; i++)
    {
      double m = st[i] == 0 ? std::min(x(i) - lo(i), hi(i) - x(i)) : st[i] == 1 ? gr(i) : -gr(i);
      if(m <= 0) good = false;
      marg = std::min(marg, m / sc);
    }
    if(good)
    {
      if(marg < 1e-4) throw Amb();
      freei = F;
      return x;
    }
  }
  throw Amb();
}

template<int U>
Ref backward(const Case<U> & c, const Run<U> & a, double lambda)
{
  int N = c.cfg.horizon_steps;
  auto & p = *c.prob;
  double dt = p.dt();
  Ref o;
  o.k.resize(N);
  o.K.resize(N);
  typename Prob<U>::X vx;
  typename Prob<U>::XX vxx;
  p.calcTerminalCostDeriv(c.t0 + N * dt, a.cd.x_list[N], vx, vxx);
  VecX Vx = vx;
  MatX Vxx = vxx;
  for(int i = N - 1; i >= 0; i--)
  {
    double t = c.t0 + i * dt;
    int n = p.dim(t);
    typename Prob<U>::XX fx, lxx;
    typename Prob<U>::XU fu(2, n), lxu(2, n);
    typename Prob<U>::X lx;
    typename Prob<U>::V lu(n);
    typename Prob<U>::UU luu(n, n);
    p.calcStateEqDeriv(t, a.cd.x_list[i], a.cd.u_list[i], fx, fu);
    p.calcRunningCostDeriv(t, a.cd.x_list[i], a.cd.u_list[i], lx, lu, lxx, luu, lxu);
    MatX Fx = fx, Fu = fu, Lxx = lxx, Luu = luu, Lxu = lxu;
    VecX Qx = VecX(lx) + Fx.transpose() * Vx;
    MatX Qxx = Lxx + Fx.transpose() * Vxx * Fx;
    VecX k(n);
    MatX K = MatX::Zero(n, 2);
    if(n > 0)
    {
      VecX Qu = VecX(lu) + Fu.transpose() * Vx;
      MatX Qux = Lxu.transpose() + Fu.transpose() * Vxx * Fx;
      MatX Quu = Luu + Fu.transpose() * Vxx * Fu;
      MatX R = Vxx, G, Gx;
      if(c.cfg.reg_type == 2) R += lambda * MatX::Identity(2, 2);
      Gx = Lxu.transpose() + Fu.transpose() * R * Fx;
      G = Luu + Fu.transpose() * R * Fu;
      if(c.cfg.reg_type == 1) G += lambda * MatX::Identity(n, n);
      if(!G.allFinite() || !Qu.allFinite() || !Gx.allFinite()) throw Amb();
      VecX ev = Eigen::SelfAdjointEigenSolver<MatX>(G).eigenvalues();
      double mx = ev.cwiseAbs().maxCoeff();
      if(std::abs(ev(0)) < 1e-6 * mx || std::abs(ev(0)) < 1e-12) throw Amb();
      if(ev(0) < 0)
      {
        if(c.cfg.with_input_constraint) throw Amb();
        o.ok = false;
        return o;
      }
      if(c.cfg.with_input_constraint)
      {
        auto l = c.limits(t);
        std::vector<int> F;
        VecX u = a.cd.u_list[i];
        VecX lo = VecX(l[0]) - u, hi = VecX(l[1]) - u;
        k = boxmin(G, Qu, lo, hi, F);
        // the QP may stop early on small relative improvement: such cases are not compared
        nmpc_ddp::BoxQP<Eigen::Dynamic> qp(n);
        qp.config().print_level = 0;
        VecX ik = VecX::Zero(n);
        if(i < N - 1 && o.k[i + 1].size() == n) ik = o.k[i + 1];
        VecX kk = qp.solve(G, Qu, lo, hi, ik);
        if(qp.retval_ != 5 && qp.retval_ != 6) throw Amb();
        if(!F.empty())
        {
          MatX Hf(F.size(), F.size()), Gf(F.size(), 2);
          for(size_t r = 0; r < F.size(); r++)
          {
            Gf.row(r) = Gx.row(F[r]);
            for(size_t s = 0; s < F.size(); s++) Hf(r, s) = G(F[r], F[s]);
          }
          MatX Kf = -Hf.fullPivLu().solve(Gf);
          for(size_t r = 0; r < F.size(); r++) K.row(F[r]) = Kf.row(r);
        }
      }
      else
      {
        auto lu_ = G.fullPivLu();
        k = -lu_.solve(Qu);
        K = -lu_.solve(Gx);
      }
      o.d0 += k.dot(Qu);
      o.d1 += 0.5 * k.dot(Quu * k);
      Vx = Qx + K.transpose() * Quu * k + K.transpose() * Qu + Qux.transpose() * k;
      Vxx = Qxx + K.transpose() * Quu * K + K.transpose() * Qux + Qux.transpose() * K;
    }
    else
    {
      Vx = Qx;
      Vxx = Qxx;
    }
    Vxx = (0.5 * (Vxx + Vxx.transpose())).eval();
    if(!Vxx.allFinite() || Vxx.cwiseAbs().maxCoeff() > 1e7 || Vx.cwiseAbs().maxCoeff() > 1e7) throw Amb();
    o.k[i] = k;
    o.K[i] = K;
  }
  return o;
}

template<int U>
void iteration(const std::string & prop, const Case<U> & c, int k, const Run<U> & a, const Run<U> & r)
{
  const auto & cfg = c.cfg;
  int N = cfg.horizon_steps;
  double dt = c.prob->dt();
  auto & T = r.tr[k];
  double lam = k == 1 ? cfg.initial_lambda : a.tr[k - 1].lambda;
  double dl = k == 1 ? cfg.initial_dlambda : a.tr[k - 1].dlambda;
  double tol = cfg.with_input_constraint ? 1e-3 : 1e-5;
  Ref ref;
  bool failed = false;
  for(int n = 0; n < 1000; n++)
  {
    ref = backward<U>(c, a, lam);
    if(ref.ok) break;
    dl = std::max(dl * cfg.lambda_factor, cfg.lambda_factor);
    lam = std::max(lam * dl, cfg.lambda_min);
    if(lam > cfg.lambda_max)
    {
      if(lam < cfg.lambda_max * (1 + 1e-9)) throw Amb();
      failed = true;
      break;
    }
  }
  if(failed)
  {
    CHECK(!r.ret, "success although the regularization exceeds its maximum (iteration " << k << ")");
    CHECK(T.alpha == 0, "line search although the backward pass failed for every admissible regularization");
    auto r2 = fresh<U>(c, k + 1);
    CHECK((int)r2.tr.size() == k + 1, "iterated on after the regularization exceeded its maximum");
    return;
  }
  double krel = 0;
  for(int i = 0; i < N; i++) krel = std::max(krel, ref.k[i].norm() / (a.cd.u_list[i].norm() + 1.0));
  CHECK(near(T.k_rel_norm, krel, tol), "k_rel_norm of iteration " << k << " is " << T.k_rel_norm << " but the gains give " << krel);
  bool kam = std::abs(krel - cfg.k_rel_norm_thre) < tol * (1e-3 + krel) * 10;
  bool small = krel < cfg.k_rel_norm_thre && lam < cfg.lambda_thre;
  if(prop == "C03")
  {
    if(kam) throw Amb();
    if(small)
    {
      CHECK(r.ret && T.alpha == 0, "feedforward steps below the threshold but the solve went on");
      auto r2 = fresh<U>(c, k + 1);
      CHECK((int)r2.tr.size() == k + 1 && r2.ret, "iterated on after convergence");
      return;
    }
    CHECK(!(r.ret && T.alpha == 0 && cfg.alpha_list.size() > 0), "success by small gradient with k_rel_norm " << krel << " (threshold " << cfg.k_rel_norm_thre << ") lambda " << lam << " (threshold " << cfg.lambda_thre << ")");
  }
  else if(small)
    return;
  if(T.alpha == 0) return;
  CHECK(near(T.cost_update_expected, -T.alpha * (ref.d0 + T.alpha * ref.d1), tol), "expected cost update " << T.cost_update_expected << " but the model gives " << -T.alpha * (ref.d0 + T.alpha * ref.d1));
  if(prop == "C03")
  {
    double l2 = lam, d2 = dl;
    bool accepted = T.cost_update_ratio > cfg.cost_update_ratio_thre;
    if(accepted)
    {
      d2 = std::min(d2 / cfg.lambda_factor, 1 / cfg.lambda_factor);
      l2 = l2 >= cfg.lambda_min ? l2 * d2 : 0;
    }
    else
    {
      d2 = std::max(d2 * cfg.lambda_factor, cfg.lambda_factor);
      l2 = std::max(l2 * d2, cfg.lambda_min);
    }
    CHECK(near(l2, T.lambda, 1e-9) && std::abs(l2 - T.lambda) <= 1e-6 * l2, "lambda " << T.lambda << " after iteration " << k << " expected " << l2);
    CHECK(near(d2, T.dlambda, 1e-9), "dlambda " << T.dlambda << " after iteration " << k << " expected " << d2);
    if(!accepted && l2 > cfg.lambda_max * (1 + 1e-9)) CHECK(!r.ret, "success after exceeding lambda_max");
  }
  // the adopted trajectory is the one these gains produce
  bool changed = false;
  for(int i = 0; i < N; i++) changed = changed || !bitsm(a.cd.u_list[i], r.cd.u_list[i]);
  if(!changed) return;
  double scale = tol;
  for(int i = 0; i < N; i++)
  {
    double t = c.t0 + i * dt;
    VecX dx = r.cd.x_list[i] - a.cd.x_list[i];
    VecX u = VecX(a.cd.u_list[i]) + T.alpha * ref.k[i] + ref.K[i] * dx;
    double kn = ref.K[i].size() ? ref.K[i].cwiseAbs().maxCoeff() : 0;
    if(kn > 1e4) throw Amb();
    if(cfg.with_input_constraint)
    {
      auto l = c.limits(t);
      u = u.cwiseMax(VecX(l[0])).cwiseMin(VecX(l[1])).eval();
    }
    double e = u.size() ? (u - VecX(r.cd.u_list[i])).cwiseAbs().maxCoeff() : 0;
    CHECK(e <= scale * (1 + kn) * (1 + (u.size() ? u.cwiseAbs().maxCoeff() : 0)), "input of step " << i << " in iteration " << k << " (alpha " << T.alpha << ") is " << r.cd.u_list[i].transpose() << " but the gains give " << u.transpose());
  }
}

template<int U>
void one(const std::string & prop, Rng & r)
{
  Case<U> c(r, prop == "C05" ? 1 : prop == "C04" ? 0 : -1);
  if(prop != "C03" && r.p(0.5))
  {
    // every candidate is adopted, so the gains of every iteration become visible
    c.cfg.cost_update_ratio_thre = -1e300;
    c.cfg.k_rel_norm_thre = 0;
    if(r.p(0.5))
    {
      c.cfg.alpha_list.resize(1);
      c.cfg.alpha_list[0] = r.p(0.5) ? 1.0 : r.u(0.05, 1.5);
    }
  }
  Run<U> a = fresh<U>(c, 0);
  for(int k = 1; k <= c.cfg.max_iter; k++)
  {
    Run<U> b = fresh<U>(c, k);
    if((int)b.tr.size() != k + 1) return;
    bool fin = true;
    for(auto & x : a.cd.x_list) fin = fin && x.allFinite() && x.cwiseAbs().maxCoeff() < 1e4;
    if(!fin) return;
    try
    {
      iteration<U>(prop, c, k, a, b);
    }
    catch(const Amb &)
    {
    }
    if(b.ret) return;
    a = b;
  }
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv,
                      [](const std::string & prop, uint64_t s)
                      {
                        Rng r(s);
                        if(s % 2)
                          one<2>(prop, r);
                        else
                          one<Eigen::Dynamic>(prop, r);
                      });
}
