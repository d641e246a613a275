// BoxQP through its public interface: C06 C07 C08 C17
#include "common.h"
#include <nmpc_ddp/BoxQP.h>
using MatX = Eigen::MatrixXd;
using VecX = Eigen::VectorXd;

template<int D>
struct Q
{
  using S = nmpc_ddp::BoxQP<D>;
  int n;
  MatX H;
  VecX g, lo, hi, x0;
  typename S::Configuration cfg;
  bool def = false;
  Q(Rng & r)
  {
    n = D == Eigen::Dynamic ? r.i(1, 5) : D;
    int kind = r.i(0, 9);
    bool grid = r.p(0.3);
    if(kind <= 6)
      H = r.pd(n, r.p(0.5) ? 0.1 : 1e-3);
    else if(kind == 7)
    {
      H = r.m(n, n);
      H = (0.5 * (H + H.transpose())).eval();
    }
    else if(kind == 8)
    {
      MatX a = r.m(n, std::max(1, n - 1));
      H = a * a.transpose();
    }
    else
      H = MatX::Zero(n, n) + r.u(0, 2) * MatX::Identity(n, n);
    g = r.v(n, std::pow(10, r.u(-1, 2)));
    lo = -r.v(n, 1).cwiseAbs() * r.u(0, 2);
    hi = r.v(n, 1).cwiseAbs() * r.u(0, 2);
    VecX sh = r.v(n, r.p(0.5) ? 0 : 2);
    lo += sh;
    hi += sh;
    for(int i = 0; i < n; i++)
    {
      if(r.p(0.05)) hi(i) = lo(i);
      if(r.p(0.05)) hi(i) = 1e6;
      if(r.p(0.05)) lo(i) = -1e6;
    }
    x0 = r.v(n, 3);
    if(grid)
    {
      for(int i = 0; i < n; i++)
      {
        g(i) = r.i(-2, 2);
        lo(i) = std::floor(lo(i));
        hi(i) = std::max(lo(i), std::ceil(hi(i)));
        x0(i) = r.i(-2, 2);
      }
      if(kind <= 6)
      {
        for(int i = 0; i < n; i++)
          for(int j = 0; j <= i; j++) H(i, j) = H(j, i) = r.i(-1, 1);
        H += (n + 1) * MatX::Identity(n, n);
      }
    }
    for(int i = 0; i < n; i++)
    {
      if(r.p(0.15)) x0(i) = lo(i);
      if(r.p(0.15)) x0(i) = hi(i);
    }
    cfg.print_level = r.p(0.1) ? 3 : 0;
    if(r.p(0.2)) cfg.max_iter = r.i(1, 4);
    if(r.p(0.2)) cfg.grad_thre = std::pow(10, r.u(-12, 0));
    if(r.p(0.2)) cfg.rel_improve_thre = std::pow(10, r.u(-14, -1));
    if(r.p(0.2)) cfg.step_factor = r.u(0.1, 0.9);
    if(r.p(0.2)) cfg.min_step = std::pow(10, r.u(-8, -0.1));
    if(r.p(0.2)) cfg.armijo_param = r.u(0.01, 1.5);
    def = r.p(0.1);
    if(def) x0 = VecX::Zero(n);
  }
  VecX run(S & s) const
  {
    s.config() = cfg;
    return def ? VecX(s.solve(H, g, lo, hi)) : VecX(s.solve(H, g, lo, hi, x0));
  }
  VecX grad(const VecX & x) const
  {
    return g + H * x;
  }
  double obj(const VecX & x) const
  {
    return x.dot(g) + 0.5 * x.dot(H * x);
  }
  double sc(const VecX & x) const
  {
    return 1 + g.cwiseAbs().maxCoeff() + (H.cwiseAbs() * x.cwiseAbs()).maxCoeff();
  }
  double osc(const VecX & x) const
  {
    return 1 + x.cwiseAbs().dot(g.cwiseAbs()) + x.cwiseAbs().dot(H.cwiseAbs() * x.cwiseAbs());
  }
};

template<int D>
void ctor()
{
  auto rej = [](int n)
  {
    try
    {
      nmpc_ddp::BoxQP<D> s(n);
      return false;
    }
    catch(const std::exception &)
    {
      return true;
    }
  };
  for(int n = -3; n <= 6; n++)
  {
    bool bad = n <= 0 || (D != Eigen::Dynamic && n != D);
    CHECK(rej(n) == bad, "constructor with dimension " << n << " (template " << D << ") " << (bad ? "accepted" : "rejected"));
  }
  if(D != Eigen::Dynamic)
  {
    nmpc_ddp::BoxQP<D> s;
    CHECK(s.var_dim_ == D, "default dimension");
  }
}

template<int D>
void one(const std::string & prop, Rng & r)
{
  using S = nmpc_ddp::BoxQP<D>;
  Q<D> q(r);
  S s(q.n);
  if(prop == "C17")
  {
    int m = r.i(1, 3);
    for(int k = 0; k < m; k++)
    {
      Q<D> p(r);
      for(int t = 0; t < 50 && p.n != q.n; t++) p = Q<D>(r);
      if(p.n == q.n) p.run(s);
    }
    VecX a = q.run(s);
    S f(q.n);
    VecX b = q.run(f);
    CHECK(bitsm(a, b), "solution differs on a reused solver: " << a.transpose() << " vs " << b.transpose());
    CHECK(s.retval_ == f.retval_, "return code differs on a reused solver: " << s.retval_ << " vs " << f.retval_);
    CHECK(s.free_idxs_ == f.free_idxs_, "free index set differs on a reused solver");
    auto &x = s.traceDataList(), &y = f.traceDataList();
    CHECK(x.size() == y.size(), "trace length differs on a reused solver");
    for(size_t i = 0; i < x.size(); i++)
      CHECK(x[i].iter == y[i].iter && bitsm(x[i].x, y[i].x) && bits(x[i].obj, y[i].obj) && bitsm(x[i].search_dir, y[i].search_dir) && (x[i].clamped_flag == y[i].clamped_flag).all()
                && x[i].factorization_num == y[i].factorization_num && x[i].step_num == y[i].step_num,
            "trace record " << i << " differs on a reused solver");
    if(f.retval_ >= 0 && !f.free_idxs_.empty())
      CHECK(s.llt_free_ && f.llt_free_ && bitsm(MatX(s.llt_free_->matrixL()), MatX(f.llt_free_->matrixL())), "factorization differs on a reused solver");
    return;
  }
  if(r.p(0.3)) Q<D>(q).run(s);
  VecX x = q.run(s);
  auto & tr = s.traceDataList();
  int n = q.n, ret = s.retval_;
  auto inside = [&](const VecX & v)
  {
    for(int i = 0; i < n; i++)
      if(!(v(i) >= q.lo(i) && v(i) <= q.hi(i))) return false;
    return true;
  };
  // records of iterations that took a step
  std::vector<int> st;
  for(size_t i = 1; i < tr.size(); i++)
    if(tr[i].factorization_num > 0) st.push_back((int)i);
  CHECK(!tr.empty(), "empty trace");
  if(prop == "C06")
  {
    static bool once = (ctor<D>(), true);
    (void)once;
    CHECK(x.size() == n && inside(x), "returned point " << x.transpose() << " outside [" << q.lo.transpose() << "] [" << q.hi.transpose() << "] (code " << ret << ")");
    CHECK(inside(tr[0].x), "initial iterate outside the box");
    for(int i : st) CHECK(inside(tr[i].x), "iterate " << i << " outside the box");
    return;
  }
  VecX gr = q.grad(x);
  double sc = q.sc(x);
  int iters = (int)tr.size() - 1;
  if(prop == "C07")
  {
    CHECK(ret == -2 || ret == -1 || ret == 1 || ret == 2 || ret == 4 || ret == 5 || ret == 6, "undocumented or unfinished return code " << ret);
    CHECK(s.retstr_.count(ret), "no text for return code " << ret);
    CHECK(iters <= q.cfg.max_iter, "performed " << iters << " iterations, limit " << q.cfg.max_iter);
    bool stepped = !st.empty() && st.back() == iters;
    if(ret == 5 || ret == 6)
    {
      for(int i = 0; i < n; i++)
      {
        bool held = (x(i) == q.lo(i) && gr(i) > -1e-12 * sc) || (x(i) == q.hi(i) && gr(i) < 1e-12 * sc);
        bool small = ret == 5 && std::abs(gr(i)) <= q.cfg.grad_thre * (1 + 1e-9) + 1e-12 * sc;
        CHECK(held || small, "code " << ret << " but coordinate " << i << " with x=" << x(i) << " in [" << q.lo(i) << ", " << q.hi(i) << "] has gradient " << gr(i));
      }
      CHECK(!stepped, "code " << ret << " after an unchecked step");
    }
    if(ret == 1) CHECK(iters == q.cfg.max_iter && stepped, "iteration-limit code after " << iters << " of " << q.cfg.max_iter);
    if(stepped && iters == q.cfg.max_iter) CHECK(ret == 1 || ret == 2, "iteration limit reached but code " << ret);
    if(ret == 2)
    {
      CHECK(stepped, "line-search code without a step");
      CHECK(std::pow(q.cfg.step_factor, tr[iters].step_num) < q.cfg.min_step * (1 + 1e-9), "line-search code but the step was not exhausted: " << tr[iters].step_num);
    }
    for(int i : st)
      if(std::pow(q.cfg.step_factor, tr[i].step_num) < q.cfg.min_step * (1 - 1e-9)) CHECK(ret == 2 && i == iters, "exhausted line search in iteration " << i << " not reported (code " << ret << ")");
    if(ret == 4)
    {
      CHECK(!st.empty() && st.back() == iters - 1, "small-improvement code without a step");
      double o0 = q.obj(tr[st.back()].x), o1 = q.obj(x);
      CHECK(o0 - o1 <= q.cfg.rel_improve_thre * std::abs(o0) + 1e-9 * (q.osc(x) + q.osc(tr[st.back()].x)), "small-improvement code but the objective fell from " << o0 << " to " << o1);
    }
    if(ret == -1)
    {
      // some principal block of free coordinates at x is not positive definite
      std::vector<int> F;
      for(int i = 0; i < n; i++)
        if(!((x(i) == q.lo(i) && gr(i) > 1e-12 * sc) || (x(i) == q.hi(i) && gr(i) < -1e-12 * sc))) F.push_back(i);
      CHECK(!F.empty(), "factorization failure although everything is clamped");
      MatX Hf(F.size(), F.size());
      for(size_t a = 0; a < F.size(); a++)
        for(size_t b = 0; b < F.size(); b++) Hf(a, b) = q.H(F[a], F[b]);
      double ev = Eigen::SelfAdjointEigenSolver<MatX>(Hf).eigenvalues()(0);
      CHECK(ev < 1e-9 * (1 + q.H.cwiseAbs().maxCoeff()), "factorization failure reported for a positive definite block (smallest eigenvalue " << ev << ")");
    }
    if(ret >= 0)
    {
      // no non-positive-definite free block may be reported as a success
      for(int i : st)
      {
        std::vector<int> F;
        for(int j = 0; j < n; j++)
          if(!tr[i].clamped_flag(j)) F.push_back(j);
        MatX Hf(F.size(), F.size());
        for(size_t a = 0; a < F.size(); a++)
          for(size_t b = 0; b < F.size(); b++) Hf(a, b) = q.H(F[a], F[b]);
        if(F.empty()) continue;
        double ev = Eigen::SelfAdjointEigenSolver<MatX>(Hf).eigenvalues()(0);
        CHECK(ev > -1e-9 * (1 + q.H.cwiseAbs().maxCoeff()), "a failed factorization was not reported (code " << ret << ", smallest eigenvalue " << ev << ")");
      }
    }
    return;
  }
  // C08
  for(int i : st)
  {
    auto & T = tr[i];
    VecX xi = T.x, gi = q.grad(xi);
    double si = q.sc(xi);
    CHECK(near(T.obj, q.obj(xi), 1e-9 * q.osc(xi)), "recorded objective " << T.obj << " of iteration " << i << " is not that of the recorded point: " << q.obj(xi));
    std::vector<int> F;
    for(int j = 0; j < n; j++)
    {
      bool cl = (xi(j) == q.lo(j) && gi(j) > 0) || (xi(j) == q.hi(j) && gi(j) < 0);
      bool amb = std::abs(gi(j)) < 1e-12 * si;
      CHECK(amb || cl == T.clamped_flag(j), "coordinate " << j << " in iteration " << i << " wrongly " << (cl ? "free" : "clamped"));
      if(T.clamped_flag(j))
        CHECK(T.search_dir(j) == 0, "search direction moves clamped coordinate " << j);
      else
        F.push_back(j);
    }
    if(F.empty()) continue;
    MatX Hf(F.size(), F.size());
    VecX gf(F.size()), df(F.size());
    for(size_t a = 0; a < F.size(); a++)
    {
      gf(a) = gi(F[a]);
      df(a) = T.search_dir(F[a]);
      for(size_t b = 0; b < F.size(); b++) Hf(a, b) = q.H(F[a], F[b]);
    }
    VecX ev = Eigen::SelfAdjointEigenSolver<MatX>(Hf).eigenvalues();
    double cond = ev.maxCoeff() / std::max(ev(0), 1e-300);
    bool good = ev(0) > 0 && cond < 1e8;
    if(good)
    {
      double e = (Hf * df + gf).cwiseAbs().maxCoeff();
      CHECK(e <= 1e-13 * cond * (si + (Hf.cwiseAbs() * df.cwiseAbs()).maxCoeff()) + 1e-10 * si, "search direction of iteration " << i << " is not the Newton step of the reduced problem (residual " << e << ")");
    }
    // the step
    double step = std::pow(q.cfg.step_factor, T.step_num);
    VecX xc = (xi + step * VecX(T.search_dir)).cwiseMin(q.hi).cwiseMax(q.lo);
    VecX nx = (i != st.back()) ? VecX(tr[i + 1].x) : x;
    CHECK(nearm(xc, nx, 1e-9), "iteration " << i << " moved to " << nx.transpose() << " but the step leads to " << xc.transpose());
    double sdg = gi.dot(VecX(T.search_dir));
    bool exhausted = ret == 2 && i == iters;
    if(sdg < -1e-12 * si && !exhausted)
    {
      double lhs = q.obj(xc) - q.obj(xi), rhs = q.cfg.armijo_param * step * sdg;
      CHECK(lhs <= rhs + 1e-9 * (q.osc(xi) + q.osc(xc)), "step of iteration " << i << " without sufficient decrease: " << lhs << " > " << rhs << " (code " << ret << ")");
    }
  }
  if(ret >= 0)
  {
    VecX xe = (ret == 5 || ret == 6 || st.empty()) ? x : VecX(tr[st.back()].x);
    VecX ge = q.grad(xe);
    double se = q.sc(xe);
    std::vector<bool> fr(n, false);
    for(size_t k = 0; k < s.free_idxs_.size(); k++)
    {
      int j = s.free_idxs_[k];
      CHECK(j >= 0 && j < n, "free index " << j << " out of range");
      CHECK(k == 0 || s.free_idxs_[k - 1] < j, "free indices not increasing");
      fr[j] = true;
    }
    for(int j = 0; j < n; j++)
    {
      bool cl = (xe(j) == q.lo(j) && ge(j) > 0) || (xe(j) == q.hi(j) && ge(j) < 0);
      CHECK(std::abs(ge(j)) < 1e-12 * se || cl == !fr[j], "free index set is wrong at coordinate " << j << " (code " << ret << ")");
    }
    if(!s.free_idxs_.empty())
    {
      CHECK((bool)s.llt_free_, "no factorization for a non-empty free set");
      int m = (int)s.free_idxs_.size();
      MatX Hf(m, m);
      for(int a = 0; a < m; a++)
        for(int b = 0; b < m; b++) Hf(a, b) = q.H(s.free_idxs_[a], s.free_idxs_[b]);
      CHECK(s.llt_free_->rows() == m, "factorization has dimension " << s.llt_free_->rows() << " but " << m << " coordinates are free");
      MatX L = s.llt_free_->matrixL();
      MatX R = L * L.transpose();
      CHECK(nearm(R, Hf, 1e-9 * (1 + q.H.cwiseAbs().maxCoeff())), "factorization is not that of the free block of the Hessian (code " << ret << ")");
    }
  }
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv,
                      [](const std::string & prop, uint64_t s)
                      {
                        Rng r(s);
                        if(s % 3 == 0)
                          one<3>(prop, r);
                        else
                          one<Eigen::Dynamic>(prop, r);
                      });
}
