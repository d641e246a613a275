// DDP through its public interface: C01 C02 C03 C05 C12 C17
#include "ddp_common.h"

template<int U>
struct Run
{
  bool ret = false;
  typename nmpc_ddp::DDPSolver<2, U>::ControlData cd;
  std::vector<typename nmpc_ddp::DDPSolver<2, U>::TraceData> tr;
};

template<int U>
Run<U> go(nmpc_ddp::DDPSolver<2, U> & s, const Case<U> & c)
{
  Run<U> r;
  r.ret = s.solve(c.t0, c.x0, c.u0);
  r.cd = s.controlData();
  r.tr = s.traceDataList();
  return r;
}

template<int U>
Run<U> fresh(const Case<U> & c, int max_iter)
{
  nmpc_ddp::DDPSolver<2, U> s(c.prob);
  c.setup(s, max_iter);
  return go<U>(s, c);
}

template<int U>
void c01(const Case<U> & c, const Run<U> & r)
{
  int N = c.cfg.horizon_steps;
  double dt = c.prob->dt();
  CHECK((int)r.cd.x_list.size() == N + 1 && (int)r.cd.u_list.size() == N && r.cd.cost_list.size() == N + 1, "sequence lengths");
  CHECK(nearm(r.cd.x_list[0], c.x0, 0), "initial state " << r.cd.x_list[0].transpose() << " expected " << c.x0.transpose());
  for(int i = 0; i < N; i++)
  {
    double t = c.t0 + i * dt;
    CHECK(r.cd.u_list[i].size() == c.prob->dim(t), "input dimension at step " << i);
    auto xn = c.prob->stateEq(t, r.cd.x_list[i], r.cd.u_list[i]);
    CHECK(nearm(xn, r.cd.x_list[i + 1]), "state " << i + 1 << " is " << r.cd.x_list[i + 1].transpose() << " but the state equation gives " << xn.transpose());
    double L = c.prob->runningCost(t, r.cd.x_list[i], r.cd.u_list[i]);
    CHECK(near(L, r.cd.cost_list[i]), "cost " << i << " is " << r.cd.cost_list[i] << " but the running cost is " << L);
  }
  double L = c.prob->terminalCost(c.t0 + N * dt, r.cd.x_list[N]);
  CHECK(near(L, r.cd.cost_list[N]), "terminal cost is " << r.cd.cost_list[N] << " but should be " << L);
}

template<int U>
bool sametraj(const Run<U> & a, const Run<U> & b)
{
  if(a.cd.u_list.size() != b.cd.u_list.size()) return false;
  for(size_t i = 0; i < a.cd.u_list.size(); i++)
    if(!bitsm(a.cd.u_list[i], b.cd.u_list[i])) return false;
  for(size_t i = 0; i < a.cd.x_list.size(); i++)
    if(!bitsm(a.cd.x_list[i], b.cd.x_list[i])) return false;
  return bitsm(a.cd.cost_list, b.cd.cost_list);
}

template<int U>
void history(const std::string & prop, const Case<U> & c)
{
  // deterministic solver: limiting the iterations exposes the state after each iteration
  std::vector<Run<U>> h;
  for(int k = 0; k <= c.cfg.max_iter; k++)
  {
    h.push_back(fresh<U>(c, k));
    auto & r = h.back();
    if(prop == "C01") c01<U>(c, r);
    CHECK((int)r.tr.size() <= k + 1, "more iterations than max_iter=" << k << ": " << r.tr.size());
    if((int)r.tr.size() < k + 1) break;
  }
  const auto & cfg = c.cfg;
  for(size_t k = 0; k < h.size(); k++)
  {
    auto & r = h[k];
    double sum = r.cd.cost_list.sum();
    if(prop == "C02")
    {
      CHECK(r.tr.size() >= 1 && r.tr[0].iter == 0, "first trace record");
      CHECK(near(r.tr[0].cost, h[0].cd.cost_list.sum()), "initial cost in the trace");
      for(size_t j = 0; j < r.tr.size(); j++) CHECK(r.tr[j].iter == (int)j, "iteration number of record " << j);
      if(k > 0 && (int)r.tr.size() == (int)k + 1)
      {
        auto & a = h[k - 1];
        bool same = sametraj(a, r);
        double s0 = a.cd.cost_list.sum();
        CHECK(same || !(sum > s0 + 1e-12 * (1 + std::abs(s0))), "iteration " << k << " increased the total cost from " << s0 << " to " << sum);
        CHECK(same || !std::isnan(sum), "iteration " << k << " accepted a NaN cost");
        auto & T = r.tr[k];
        if(T.alpha != 0)
        {
          CHECK(near(T.cost, sum), "trace cost " << T.cost << " of iteration " << k << " differs from the kept trajectory's cost " << sum);
        }
      }
    }
    if(prop == "C03" && k > 0 && r.tr.size() == k + 1)
    {
      auto & T = r.tr[k];
      auto & a = h[k - 1];
      double pl = k == 1 ? cfg.initial_lambda : a.tr[k - 1].lambda;
      double pd = k == 1 ? cfg.initial_dlambda : a.tr[k - 1].dlambda;
      auto inc = [&](double & l, double & d)
      {
        d = std::max(d * cfg.lambda_factor, cfg.lambda_factor);
        l = std::max(l * d, cfg.lambda_min);
      };
      bool decided = T.alpha != 0;
      bool accepted = decided && T.cost_update_ratio > cfg.cost_update_ratio_thre;
      if(!decided)
      {
        if(r.ret)
        {
          CHECK(T.k_rel_norm < cfg.k_rel_norm_thre && pl < cfg.lambda_thre, "success without small gradient: k_rel_norm " << T.k_rel_norm << " lambda " << pl);
        }
      }
      else
      {
        // T.k_rel_norm small and lambda small would have terminated before the line search
        CHECK(!(T.k_rel_norm < cfg.k_rel_norm_thre && pl < cfg.lambda_thre) || pl == 0 || T.lambda > pl / (10 * cfg.lambda_factor), "should have terminated");
        bool ok = false;
        double l = pl, d = pd;
        for(int n = 0; n < 400 && !ok; n++)
        {
          double l2 = l, d2 = d;
          if(accepted)
          {
            d2 = std::min(d2 / cfg.lambda_factor, 1 / cfg.lambda_factor);
            l2 = l2 >= cfg.lambda_min ? l2 * d2 : 0;
          }
          else
          {
            inc(l2, d2);
          }
          if(near(l2, T.lambda, 1e-10) && near(d2, T.dlambda, 1e-10)) ok = true;
          inc(l, d);
          if(l > cfg.lambda_max) break;
        }
        CHECK(ok, "lambda " << T.lambda << "/" << T.dlambda << " does not follow from " << pl << "/" << pd << " after iteration " << k << (accepted ? " accepted" : " rejected"));
        CHECK(T.lambda >= 0, "negative lambda");
        bool upd = !sametraj(a, r);
        CHECK(!upd || accepted, "trajectory changed although the line search failed");
        CHECK(accepted || !r.ret, "success after a rejected line search");
        if(r.ret)
        {
          CHECK(T.cost_update_actual < cfg.cost_update_thre, "success with cost update " << T.cost_update_actual);
        }
        else if(accepted)
        {
          CHECK(!(T.cost_update_actual < cfg.cost_update_thre), "small accepted cost update not reported as success");
        }
        if(!accepted && T.lambda > cfg.lambda_max)
        {
          CHECK(!r.ret, "success although lambda exceeds its maximum");
          auto r2 = fresh<U>(c, (int)k + 1);
          CHECK(r2.tr.size() == k + 1, "iterated on although lambda " << T.lambda << " exceeds its maximum");
        }
        // the recorded cost update is the change of the kept trajectory
        if(accepted)
        {
          CHECK(near(T.cost_update_actual, a.cd.cost_list.sum() - sum, 1e-7), "recorded cost update " << T.cost_update_actual);
        }
      }
      if(r.ret)
      {
        auto r2 = fresh<U>(c, (int)k + 1);
        CHECK(r2.tr.size() == k + 1 && r2.ret, "convergence does not end the solve");
      }
    }
    if(prop == "C03" && k == 0) CHECK(!r.ret, "success without any iteration");
  }
}

template<int U>
void c05(const Case<U> & c)
{
  for(int k = 0; k <= c.cfg.max_iter; k++)
  {
    auto r = fresh<U>(c, k);
    bool same = true;
    for(size_t i = 0; i < r.cd.u_list.size(); i++) same = same && bitsm(r.cd.u_list[i], c.u0[i]);
    if(same) continue;
    for(size_t i = 0; i < r.cd.u_list.size(); i++)
    {
      auto l = c.limits(c.t0 + i * c.prob->dt());
      for(int j = 0; j < r.cd.u_list[i].size(); j++)
      {
        double v = r.cd.u_list[i](j);
        CHECK(std::isnan(v) || (v >= l[0](j) - 1e-12 && v <= l[1](j) + 1e-12),
              "input " << j << " of step " << i << " is " << v << " outside [" << l[0](j) << ", " << l[1](j) << "] after " << k << " iterations");
      }
    }
  }
}

template<int U>
void c12(Case<U> c, Rng & r)
{
  // a well-formed guess is accepted
  fresh<U>(c, c.cfg.max_iter);
  int mode = r.i(0, 2);
  Case<U> b = c;
  bool bad = true;
  if(mode == 0)
  {
    b.u0.push_back(r.v(b.prob->dim(b.t0 + b.u0.size() * b.prob->dt())));
  }
  else if(mode == 1 && !b.u0.empty())
  {
    b.u0.resize(r.i(0, (int)b.u0.size() - 1));
  }
  else
  {
    bad = false;
    if constexpr(U == Eigen::Dynamic)
    {
      if(!b.u0.empty())
      {
        int i = r.i(0, (int)b.u0.size() - 1);
        int n = (int)b.u0[i].size();
        b.u0[i] = r.v(n > 0 && r.p(0.5) ? n - 1 : n + 1);
        bad = true;
      }
    }
  }
  bool thrown = false;
  try
  {
    fresh<U>(b, b.cfg.max_iter);
  }
  catch(const Fail &)
  {
    throw;
  }
  catch(const std::exception &)
  {
    thrown = true;
  }
  CHECK(thrown == bad, "malformed initial inputs (mode " << mode << ") " << (thrown ? "rejected" : "accepted"));
}

template<int U>
void cmp(const Run<U> & a, const Run<U> & b)
{
  CHECK(a.ret == b.ret, "return value differs on a reused solver");
  CHECK(a.tr.size() == b.tr.size(), "number of iterations differs on a reused solver: " << a.tr.size() << " vs " << b.tr.size());
  CHECK(sametraj(a, b), "trajectory differs on a reused solver");
  for(size_t i = 0; i < a.tr.size(); i++)
  {
    auto &x = a.tr[i], &y = b.tr[i];
    CHECK(x.iter == y.iter && bits(x.cost, y.cost) && bits(x.lambda, y.lambda) && bits(x.dlambda, y.dlambda) && bits(x.alpha, y.alpha) && bits(x.k_rel_norm, y.k_rel_norm)
              && bits(x.cost_update_actual, y.cost_update_actual) && bits(x.cost_update_expected, y.cost_update_expected) && bits(x.cost_update_ratio, y.cost_update_ratio),
          "trace record " << i << " differs on a reused solver");
  }
}

template<int U>
void c17(Rng & r)
{
  Case<U> base(r);
  nmpc_ddp::DDPSolver<2, U> s(base.prob);
  for(int n = 0; n < 5; n++)
  {
    Case<U> c(r);
    c.prob = base.prob;
    c.u0.clear();
    if(r.p(0.4)) c.cfg.horizon_steps = base.cfg.horizon_steps;
    for(int i = 0; i < c.cfg.horizon_steps; i++) c.u0.push_back(r.v(c.prob->dim(c.t0 + i * c.prob->dt())));
    c.setup(s, c.cfg.max_iter);
    if(r.p(0.3))
    {
      auto b = c;
      b.u0.push_back(r.v(2));
      try
      {
        s.solve(b.t0, b.x0, b.u0);
      }
      catch(const std::exception &)
      {
      }
    }
    auto a = go<U>(s, c);
    auto f = fresh<U>(c, c.cfg.max_iter);
    cmp<U>(f, a);
  }
}

template<int U>
void one(const std::string & prop, Rng & r)
{
  if(prop == "C17")
  {
    c17<U>(r);
    return;
  }
  Case<U> c(r, prop == "C05" ? 1 : -1);
  if(prop == "C05")
    c05<U>(c);
  else if(prop == "C12")
    c12<U>(c, r);
  else
    history<U>(prop, c);
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv,
                      [](const std::string & prop, uint64_t s)
                      {
                        Rng r(s);
                        if(s % 2)
                          one<2>(prop, r);
                        else
                          one<Eigen::Dynamic>(prop, r);
                      });
}
