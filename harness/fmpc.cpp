// FMPC through its public interface: C09 C10 C11 C12 C13 C17 C18
#include "fmpc_common.h"

template<int U, int G>
struct FRun
{
  typename FCase<U, G>::Status st;
  typename FCase<U, G>::Var v;
  std::vector<typename FCase<U, G>::S::TraceData> tr;
};
template<int U, int G>
FRun<U, G> go(typename FCase<U, G>::S & s, const FCase<U, G> & c, int max_iter)
{
  s.config() = c.cfg;
  s.config().max_iter = max_iter;
  FRun<U, G> r;
  r.st = s.solve(c.t0, c.x0, c.v0);
  r.v = s.variable();
  r.tr = s.traceDataList();
  return r;
}
template<int U, int G>
FRun<U, G> fresh(const FCase<U, G> & c, int max_iter)
{
  typename FCase<U, G>::S s(c.prob);
  return go<U, G>(s, c, max_iter);
}

template<int U, int G>
bool finite(const typename FCase<U, G>::Var & v)
{
  auto ok = [](const auto & l)
  {
    for(auto & x : l)
      for(int j = 0; j < x.size(); j++)
        if(!(std::abs(x(j)) < 1e6)) return false;
    return true;
  };
  return ok(v.x_list) && ok(v.u_list) && ok(v.lambda_list) && ok(v.s_list) && ok(v.nu_list);
}

template<class L>
double amax(const L & l)
{
  double a = 0;
  for(auto & x : l)
    if(x.size()) a = std::max(a, x.cwiseAbs().maxCoeff());
  return a;
}

// step length a such that n = o + a*d, by projection; err: largest deviation
template<class L>
void proj(const L & o, const L & n, const L & d, double & num, double & den)
{
  for(size_t i = 0; i < o.size(); i++)
    for(int j = 0; j < o[i].size(); j++)
    {
      num += (n[i](j) - o[i](j)) * d[i](j);
      den += d[i](j) * d[i](j);
    }
}
template<class L>
double dev(const L & o, const L & n, const L & d, double a)
{
  double e = 0;
  for(size_t i = 0; i < o.size(); i++)
    for(int j = 0; j < o[i].size(); j++) e = std::max(e, std::abs(o[i](j) + a * d[i](j) - n[i](j)));
  return e;
}

template<int U, int G>
void step(const std::string & prop, const FCase<U, G> & c, int k, const FRun<U, G> & a, const FRun<U, G> & b, double eps)
{
  using St = typename FCase<U, G>::Status;
  auto &v = a.v, &w = b.v;
  if(b.st == St::ErrorInUpdate || b.st == St::ErrorInBackward || b.st == St::ErrorInForward)
  {
    if(prop == "C09") CHECK((samevar<U, G>(v, w)), "error status " << (int)b.st << " but the variables changed");
    return;
  }
  if(b.st == St::Succeeded) return;
  if(!finite<U, G>(v)) return;
  auto d = newton<U, G>(c, v, eps);
  double sc = 1 + std::max({amax(d.x_list), amax(d.u_list), amax(d.s_list), amax(v.x_list), amax(v.u_list), amax(v.s_list)});
  double sd = 1 + std::max({amax(d.lambda_list), amax(d.nu_list), amax(v.lambda_list), amax(v.nu_list)});
  double num = 0, den = 0;
  proj(v.x_list, w.x_list, d.x_list, num, den);
  proj(v.u_list, w.u_list, d.u_list, num, den);
  proj(v.s_list, w.s_list, d.s_list, num, den);
  bool pz = den < 1e-12;
  double as = pz ? 1 : num / den;
  num = den = 0;
  proj(v.lambda_list, w.lambda_list, d.lambda_list, num, den);
  proj(v.nu_list, w.nu_list, d.nu_list, num, den);
  bool dz = den < 1e-12;
  double an = dz ? 1 : num / den;
  double tol = 1e-6;
  double e1 = std::max({dev(v.x_list, w.x_list, d.x_list, as), dev(v.u_list, w.u_list, d.u_list, as), dev(v.s_list, w.s_list, d.s_list, as)});
  double e2 = std::max(dev(v.lambda_list, w.lambda_list, d.lambda_list, an), dev(v.nu_list, w.nu_list, d.nu_list, an));
  double fs = frac<U, G>(v.s_list, d.s_list), fn = frac<U, G>(v.nu_list, d.nu_list);
  if(prop == "C11" || prop == "C09" || prop == "C18")
  {
    CHECK(e1 <= tol * sc, "iteration " << k << ": states, inputs and slacks do not move along the Newton direction (deviation " << e1 << ", step " << as << ")");
    CHECK(e2 <= tol * sd, "iteration " << k << ": multipliers do not move along the Newton direction (deviation " << e2 << ", step " << an << ")");
  }
  if(prop == "C09")
  {
    if(!dz) CHECK(near(an, fn, 1e-4), "dual step " << an << " but the fraction-to-boundary rule gives " << fn);
    if(!pz)
    {
      if(!c.cfg.enable_line_search)
        CHECK(near(as, fs, 1e-4), "primal step " << as << " but the fraction-to-boundary rule gives " << fs);
      else
        CHECK(as <= fs * (1 + 1e-4) + 1e-6 && as >= -1e-9, "primal step " << as << " exceeds the fraction-to-boundary limit " << fs);
    }
  }
  if(prop == "C13" && c.cfg.enable_line_search && !pz)
  {
    Merit m = merit<U, G>(c, v, &d, eps);
    if(m.kink < 1e-9 || m.con < 1e-9) throw Amb();
    double ps = penalty<U, G>(c, v, m);
    double f0 = m.obj + ps * m.con, df = m.dobj + ps * m.dcon;
    double al = fs;
    bool found = false;
    for(int n = 0; n < 60 && al >= 1e-10; n++)
    {
      auto t = v;
      for(size_t i = 0; i < t.x_list.size(); i++)
      {
        t.x_list[i] += al * d.x_list[i];
        if(i < t.u_list.size())
        {
          t.u_list[i] += al * d.u_list[i];
          t.s_list[i] += al * d.s_list[i];
        }
      }
      Merit q = merit<U, G>(c, t, nullptr, eps);
      double lhs = q.obj + ps * q.con, rhs = f0 + 1e-3 * al * df;
      double marg = 1e-8 * (1 + std::abs(f0) + std::abs(q.obj) + ps * (m.con + q.con));
      if(std::abs(lhs - rhs) < marg) throw Amb();
      if(lhs < rhs)
      {
        found = true;
        break;
      }
      al *= 0.5;
    }
    if(found && al > 1e-3)
      CHECK(near(as, al, 1e-4), "accepted primal step " << as << " but the merit function accepts " << al << " (limit " << fs << ")");
    else if(!found)
      CHECK(as <= 1e-6, "accepted primal step " << as << " although the merit function never decreases sufficiently");
  }
}

template<int U, int G>
void history(const std::string & prop, FCase<U, G> c)
{
  using St = typename FCase<U, G>::Status;
  if(prop == "C13") c.cfg.enable_line_search = true;
  FRun<U, G> a = fresh<U, G>(c, 0);
  if(prop == "C10")
  {
    CHECK(a.st == St::Uninitialized, "status without any iteration is " << (int)a.st);
    CHECK(a.tr.empty(), "trace without any iteration");
  }
  if(prop == "C18")
  {
    for(int i = 0; i < c.cfg.horizon_steps; i++)
    {
      VecX s = c.v0.s_list[i], q = c.v0.nu_list[i];
      if(c.cfg.init_complementary_variable)
      {
        VecX g = c.prob->ineqConst(c.tm(i), c.v0.x_list[i], c.v0.u_list[i]);
        for(int j = 0; j < g.size(); j++)
        {
          s(j) = 1.01 * std::max(-g(j), 0.01);
          q(j) = 1.01 * std::max(1e-4 / s(j), 0.01);
        }
      }
      CHECK(nearm(s, a.v.s_list[i], 1e-12) && nearm(q, a.v.nu_list[i], 1e-12),
            "initial slack " << a.v.s_list[i].transpose() << " / multiplier " << a.v.nu_list[i].transpose() << " of step " << i << ", expected " << s.transpose() << " / " << q.transpose());
    }
  }
  double eps = 1e-4;
  for(int k = 1; k <= c.cfg.max_iter; k++)
  {
    FRun<U, G> b = fresh<U, G>(c, k);
    CHECK((int)b.tr.size() <= k, "more iterations than configured: " << b.tr.size() << " of " << k);
    if((int)b.tr.size() != k) return;
    eps = barrier<U, G>(c, a.v, eps);
    bool pos0 = true, pos1 = true;
    for(int i = 0; i < c.cfg.horizon_steps; i++)
    {
      pos0 = pos0 && (a.v.s_list[i].array() > 0).all() && (a.v.nu_list[i].array() > 0).all();
      pos1 = pos1 && (b.v.s_list[i].array() > 0).all() && (b.v.nu_list[i].array() > 0).all();
    }
    if(prop == "C09" || prop == "C18") CHECK(!pos0 || pos1, "iteration " << k << " leaves a non-positive slack or multiplier");
    if(prop == "C10")
    {
      auto & T = b.tr[k - 1];
      double e = kkt<U, G>(c, a.v);
      CHECK(T.iter == k, "iteration number " << T.iter);
      if(e < 1e100) CHECK(near(T.kkt_error, e, 1e-9) && std::abs(T.kkt_error - e) <= 1e-7 * e + 1e-13, "recorded KKT error " << T.kkt_error << " of iteration " << k << " but the iterate's is " << e);
      if(b.st == St::Succeeded)
      {
        double f = kkt<U, G>(c, b.v);
        CHECK(f <= c.cfg.kkt_error_thre * (1 + 1e-6) + 1e-13, "success with KKT error " << f << " above the tolerance " << c.cfg.kkt_error_thre);
      }
      else
      {
        CHECK(!(e < c.cfg.kkt_error_thre * (1 - 1e-6) - 1e-13), "tolerance met but status " << (int)b.st);
        CHECK(b.st == St::MaxIterationReached || b.st == St::ErrorInBackward || b.st == St::ErrorInForward || b.st == St::ErrorInUpdate, "status " << (int)b.st);
      }
      if(b.st != St::MaxIterationReached)
      {
        auto b2 = fresh<U, G>(c, k + 1);
        CHECK(b2.st == b.st && (int)b2.tr.size() == k, "iterated on after status " << (int)b.st);
      }
    }
    else
    {
      try
      {
        step<U, G>(prop, c, k, a, b, eps);
      }
      catch(const Amb &)
      {
      }
    }
    if(b.st != St::MaxIterationReached) return;
    a = b;
  }
}

template<int U, int G>
void c12(FCase<U, G> c, Rng & r)
{
  try
  {
    fresh<U, G>(c, c.cfg.max_iter);
  }
  catch(const Fail &)
  {
    throw;
  }
  catch(const std::exception & e)
  {
    CHECK(false, "well-formed guess rejected: " << e.what());
  }
  FCase<U, G> b = c;
  int N = c.cfg.horizon_steps, which = r.i(0, 9), i = r.i(0, N - 1), dlt = r.p(0.5) ? 1 : -1;
  bool bad = true;
  auto len = [&](auto & l)
  {
    typename std::decay<decltype(l[0])>::type z = l[0];
    if(dlt > 0)
      l.push_back(z);
    else
      l.resize(r.p(0.3) ? 0 : l.size() - 1);
  };
  auto dimc = [&](auto & l, bool dyn, bool ineq)
  {
    using T = typename std::decay<decltype(l[0])>::type;
    if constexpr(T::RowsAtCompileTime == Eigen::Dynamic)
    {
      // with complementarity initialization the slack and multiplier guesses are replaced
      int n = (int)l[i].size();
      T z = r.v(n > 0 && dlt < 0 ? n - 1 : n + 1).cwiseAbs();
      l[i] = z;
      if(ineq && b.cfg.init_complementary_variable) bad = false;
    }
    else
      bad = false;
  };
  switch(which)
  {
    case 0: len(b.v0.x_list); break;
    case 1: len(b.v0.u_list); break;
    case 2: len(b.v0.lambda_list); break;
    case 3: len(b.v0.s_list); break;
    case 4: len(b.v0.nu_list); break;
    case 5: dimc(b.v0.u_list, true, false); break;
    case 6: dimc(b.v0.s_list, true, true); break;
    case 7: dimc(b.v0.nu_list, true, true); break;
    case 8:
    case 9:
    {
      auto & l = which == 8 ? b.v0.s_list : b.v0.nu_list;
      if(l[i].size() == 0)
        bad = false;
      else
      {
        l[i](r.i(0, (int)l[i].size() - 1)) = -r.u(1e-9, 1);
        if(b.cfg.init_complementary_variable) bad = false;
      }
    }
  }
  bool thrown = false;
  try
  {
    fresh<U, G>(b, b.cfg.max_iter);
  }
  catch(const Fail &)
  {
    throw;
  }
  catch(const std::exception &)
  {
    thrown = true;
  }
  CHECK(thrown == bad, "guess with defect kind " << which << (thrown ? " rejected" : " accepted") << " (init " << b.cfg.init_complementary_variable << ")");
}

template<int U, int G>
void c17(Rng & r)
{
  FCase<U, G> base(r);
  typename FCase<U, G>::S s(base.prob);
  for(int n = 0; n < 4; n++)
  {
    FCase<U, G> c = base;
    c.randomize(r);
    if(r.p(0.4))
    {
      c.cfg.horizon_steps = base.cfg.horizon_steps;
      c.guess(r);
    }
    if(!c.cfg.update_barrier_eps) c.cfg.init_complementary_variable = true;
    if(r.p(0.3))
    {
      auto b = c;
      b.v0.lambda_list.push_back(Eigen::Vector2d::Zero());
      try
      {
        go<U, G>(s, b, 3);
      }
      catch(const std::exception &)
      {
      }
    }
    auto x = go<U, G>(s, c, c.cfg.max_iter);
    auto y = fresh<U, G>(c, c.cfg.max_iter);
    CHECK(x.st == y.st, "status differs on a reused solver: " << (int)x.st << " vs " << (int)y.st);
    CHECK((samevar<U, G>(x.v, y.v)), "variables differ on a reused solver");
    CHECK(x.tr.size() == y.tr.size(), "iterations differ on a reused solver");
    for(size_t i = 0; i < x.tr.size(); i++) CHECK(x.tr[i].iter == y.tr[i].iter && bits(x.tr[i].kkt_error, y.tr[i].kkt_error), "trace record " << i << " differs on a reused solver");
  }
}

template<int U, int G>
void one(const std::string & prop, Rng & r)
{
  if(prop == "C17")
  {
    c17<U, G>(r);
    return;
  }
  FCase<U, G> c(r);
  if(prop == "C12")
    c12<U, G>(c, r);
  else
    history<U, G>(prop, c);
}

int main(int argc, char ** argv)
{
  return harness_main(argc, argv,
                      [](const std::string & prop, uint64_t s)
                      {
                        Rng r(s);
                        if(s % 2)
                          one<2, 3>(prop, r);
                        else
                          one<Eigen::Dynamic, Eigen::Dynamic>(prop, r);
                      });
}
