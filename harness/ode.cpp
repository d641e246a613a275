// ODE integrators: C16
#include "common.h"
#include <nmpc_cgmres/OdeSolver.h>

void run(const std::string &, uint64_t s)
{
  Rng r(s);
  int n = r.i(1, 6), m = r.i(1, 3);
  Eigen::MatrixXd A = r.m(n, n), B = r.m(n, m);
  double w = r.u(-2, 2), q = r.u(-1, 1);
  auto f = [&](double t, const Eigen::VectorXd & x, const Eigen::VectorXd & u) -> Eigen::VectorXd
  {
    Eigen::VectorXd d = A * x + B * u;
    for(int i = 0; i < n; i++) d(i) += q * std::sin(w * t + x((i + 1) % n)) * (1 + u(0) * u(0)) + t;
    return d;
  };
  nmpc_cgmres::OdeSolver::StateEquation eq = [&](double t, const Eigen::Ref<const Eigen::VectorXd> & x, const Eigen::Ref<const Eigen::VectorXd> & u, Eigen::Ref<Eigen::VectorXd> d)
  { d = f(t, x, u); };
  double t = r.u(-5, 5), dt = r.p(0.1) ? 0 : r.u(-0.5, 0.5);
  Eigen::VectorXd x = r.v(n, 2), u = r.v(m, 2), x1 = x, u1 = u, ret = r.v(n, 9);
  nmpc_cgmres::EulerOdeSolver e;
  e.solve(eq, t, x, u, dt, ret);
  Eigen::VectorXd want = x1 + dt * f(t, x1, u1);
  CHECK(nearm(ret, want, 1e-12), "Euler step: " << ret.transpose() << " expected " << want.transpose() << " for dt " << dt);
  CHECK(bitsm(x, x1) && bitsm(u, u1), "Euler modified its inputs");
  nmpc_cgmres::RungeKuttaOdeSolver k;
  ret = r.v(n, 9);
  k.solve(eq, t, x, u, dt, ret);
  double h = dt / 2;
  Eigen::VectorXd k1 = f(t, x1, u1), k2 = f(t + h, x1 + h * k1, u1), k3 = f(t + h, x1 + h * k2, u1), k4 = f(t + dt, x1 + dt * k3, u1);
  want = x1 + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4);
  CHECK(nearm(ret, want, 1e-12), "Runge-Kutta step: " << ret.transpose() << " expected " << want.transpose() << " for dt " << dt);
  CHECK(bitsm(x, x1) && bitsm(u, u1), "Runge-Kutta modified its inputs");
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv, run);
}
