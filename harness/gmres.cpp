// GMRES: C14
#include "common.h"
#include <nmpc_cgmres/Gmres.h>
using MatX = Eigen::MatrixXd;
using VecX = Eigen::VectorXd;

void run(const std::string &, uint64_t seed)
{
  Rng r(seed);
  int n = r.p(0.1) ? 1 : r.i(2, 9);
  MatX A = r.m(n, n);
  int kind = r.i(0, 4);
  if(kind == 0) A += 3 * MatX::Identity(n, n);
  if(kind == 1) A = r.pd(n, 0.3);
  if(kind == 2)
  {
    // few distinct eigenvalues: early convergence
    A = MatX::Identity(n, n) * r.u(0.5, 2);
    A(0, n - 1) += r.u(-1, 1);
  }
  VecX b = r.v(n, std::pow(10, r.u(-2, 2))), x0 = r.p(0.5) ? VecX(VecX::Zero(n)) : r.v(n, 2);
  if(r.p(0.05)) b.setZero();
  if(r.p(0.05)) x0 = A.fullPivLu().solve(b);
  int kmax = r.p(0.2) ? 100 : r.i(0, n + 2);
  double eps = r.p(0.4) ? 1e-10 : std::pow(10, r.u(-8, 0));
  nmpc_cgmres::Gmres g;
  g.make_triangular_ = r.p(0.6);
  g.apply_reorth_ = r.p(0.7);
  if(r.p(0.3))
  {
    // a used object
    VecX z = VecX::Zero(3);
    MatX M = r.m(3, 3);
    VecX c = r.v(3);
    g.solve(Eigen::Ref<const MatX>(M), c, z, 3, 1e-8);
  }
  VecX x = x0;
  long calls = 0;
  if(r.p(0.5))
    g.solve(Eigen::Ref<const MatX>(A), b, x, kmax, eps);
  else
  {
    nmpc_cgmres::Gmres::AmulFunc f = [&](const Eigen::Ref<const VecX> & v) -> VecX
    {
      calls++;
      return A * v;
    };
    g.solve(f, b, x, kmax, eps);
  }
  int lim = std::min(kmax, n);
  int k = (int)g.err_list_.size() - 1;
  VecX r0 = b - A * x0;
  double rho = r0.norm(), bn = b.norm(), sc = 1e-30 + rho;
  CHECK(k >= 0 && k <= lim, "performed " << k << " iterations, limit " << lim);
  CHECK(std::abs(g.err_list_[0] - rho) <= 1e-12 * (1 + bn + (A.cwiseAbs() * x0.cwiseAbs()).norm()), "first recorded error " << g.err_list_[0] << " is not the initial residual norm " << rho);
  CHECK((int)g.basis_.size() == k + 1, "basis has " << g.basis_.size() << " vectors after " << k << " iterations");
  for(int i = 0; i < k; i++) CHECK(!(g.err_list_[i] <= eps * bn), "went on in iteration " << i << " although the error " << g.err_list_[i] << " met the tolerance " << eps * bn);
  CHECK(k == lim || g.err_list_[k] <= eps * bn, "stopped after " << k << " of " << lim << " iterations with error " << g.err_list_[k] << " above " << eps * bn);
  if(k == 0)
  {
    CHECK(bitsm(x, x0), "solution changed without an iteration");
    return;
  }
  // numerically meaningful prefix of the Krylov basis
  MatX V(n, k + 1);
  for(int i = 0; i <= k; i++) V.col(i) = g.basis_[i];
  if(rho < 1e-9 || !V.allFinite()) return;
  CHECK(nearm(VecX(V.col(0)), VecX(r0 / rho), 1e-9), "first basis vector is not the normalized residual");
  // exact Krylov growth of the reference basis; stop where it (almost) breaks down
  MatX W(n, k + 1);
  W.col(0) = r0 / rho;
  int good = 0;
  for(int i = 0; i < k; i++)
  {
    VecX w = A * W.col(i);
    double wn = w.norm();
    for(int p = 0; p < 2; p++)
      for(int j = 0; j <= i; j++) w -= W.col(j).dot(w) * W.col(j);
    if(w.norm() < 1e-6 * (1e-300 + wn) || wn < 1e-9) break;
    W.col(i + 1) = w.normalized();
    good = i + 1;
  }
  for(int i = 0; i <= good; i++)
  {
    double s = V.col(i).dot(W.col(i));
    CHECK((V.col(i) - W.col(i)).norm() <= 1e-6, "basis vector " << i << " does not satisfy the Arnoldi relation (deviation " << (V.col(i) - W.col(i)).norm() << ", cos " << s << ")");
  }
  auto ls = [&](int m, VecX & y, double & cond)
  {
    MatX AV = A * W.leftCols(m);
    Eigen::JacobiSVD<MatX> svd(AV, Eigen::ComputeThinU | Eigen::ComputeThinV);
    cond = svd.singularValues()(0) / std::max(1e-300, svd.singularValues()(m - 1));
    y = svd.solve(r0);
    return (r0 - AV * y).norm();
  };
  int m = std::min(k, good + 1);
  for(int i = 1; i <= m; i++)
  {
    VecX y;
    double cond;
    double e = ls(i, y, cond);
    if(cond > 1e7) return;
    CHECK(std::abs(g.err_list_[i] - e) <= 1e-6 * sc, "recorded error " << g.err_list_[i] << " of iteration " << i << ", the projected least-squares residual is " << e);
    if(i == k)
    {
      VecX want = x0 + W.leftCols(i) * y;
      CHECK((x - want).norm() <= 1e-6 * (1 + want.norm() + x0.norm()) * (1 + cond), "solution " << x.transpose() << " is not the least-squares combination " << want.transpose());
      CHECK(std::abs((b - A * x).norm() - e) <= 1e-6 * (sc + (A * x).norm()) * (1 + 1e-3 * cond), "true residual " << (b - A * x).norm() << ", expected " << e);
      if(cond < 1e4) CHECK((x - want).norm() <= 1e-7 * (1 + want.norm() + x0.norm()), "solution deviates by " << (x - want).norm());
    }
  }
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv, run);
}
