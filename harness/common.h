// Runtime-contract harness support: deterministic case generation and failure reporting.
#pragma once
#include <unordered_map>
#include <csignal>
#include <cmath>
#include <unistd.h>
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <memory>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <Eigen/Dense>

struct Rng
{
  std::mt19937_64 g;
  explicit Rng(uint64_t s) : g(s * 0x9E3779B97F4A7C15ull + 12345) {}
  double u(double a, double b)
  {
    return a + (b - a) * (double)(g() >> 11) * (1.0 / 9007199254740992.0);
  }
  int i(int a, int b)
  {
    return a + (int)(g() % (uint64_t)(b - a + 1));
  }
  bool p(double q)
  {
    return u(0, 1) < q;
  }
  Eigen::MatrixXd m(int r, int c, double s = 1)
  {
    Eigen::MatrixXd x(r, c);
    for(int k = 0; k < x.size(); k++) x.data()[k] = u(-s, s);
    return x;
  }
  Eigen::VectorXd v(int n, double s = 1)
  {
    return m(n, 1, s);
  }
  Eigen::MatrixXd pd(int n, double lo)
  {
    Eigen::MatrixXd x = m(n, n);
    return x * x.transpose() + lo * Eigen::MatrixXd::Identity(n, n);
  }
};

struct Fail
{
  std::string what;
};

#define CHECK(cond, msg)                  \
  do                                      \
  {                                       \
    if(!(cond))                           \
    {                                     \
      std::ostringstream os__;            \
      os__.precision(17);                 \
      os__ << msg << "  [" #cond "]";     \
      throw Fail{os__.str()};             \
    }                                     \
  } while(0)

inline bool near(double a, double b, double tol = 1e-9)
{
  if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  if(std::isinf(a) || std::isinf(b)) return a == b;
  return std::abs(a - b) <= tol * (1 + std::abs(a) + std::abs(b));
}
template<class A, class B>
inline bool nearm(const A & a, const B & b, double tol = 1e-9)
{
  if(a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for(int i = 0; i < a.rows(); i++)
    for(int j = 0; j < a.cols(); j++)
      if(!near(a(i, j), b(i, j), tol)) return false;
  return true;
}
inline bool bits(double a, double b)
{
  return std::memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)) || (a == 0 && b == 0);
}
template<class A, class B>
inline bool bitsm(const A & a, const B & b)
{
  if(a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for(int i = 0; i < a.rows(); i++)
    for(int j = 0; j < a.cols(); j++)
      if(!bits(a(i, j), b(i, j))) return false;
  return true;
}

// silences std::cout while the library runs
struct Quiet
{
  std::streambuf * o;
  std::ostringstream s;
  Quiet()
  {
    o = std::cout.rdbuf(s.rdbuf());
  }
  ~Quiet()
  {
    std::cout.rdbuf(o);
  }
};

inline long & current_case()
{
  static long k = -1;
  return k;
}
inline unsigned long long & current_seed()
{
  static unsigned long long k = 0;
  return k;
}
inline void on_crash(int sig)
{
  char b[160];
  int n = std::snprintf(b, sizeof b, "\nFAIL case=%ld seed=%llu crashed with signal %d (memory error, failed assertion or uncaught exception)\n", current_case(), current_seed(), sig);
  if(write(1, b, n) < 0) {}
  _exit(1);
}

// main loop: argv = property seed count [only]
inline int harness_main(int argc, char ** argv, const std::function<void(const std::string &, uint64_t)> & run)
{
  std::string prop = argc > 1 ? argv[1] : "";
  uint64_t seed = argc > 2 ? std::stoull(argv[2]) : 1;
  long count = argc > 3 ? std::stol(argv[3]) : 100;
  long only = argc > 4 ? std::stol(argv[4]) : -1;
  long done = 0;
  current_seed() = seed;
  for(int sg : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) std::signal(sg, on_crash);
  for(long k = (only >= 0 ? only : 0); k < (only >= 0 ? only + 1 : count); k++)
  {
    std::string err;
    current_case() = k;
    try
    {
      Quiet q;
      run(prop, seed * 1000003ull + (uint64_t)k);
    }
    catch(const Fail & f)
    {
      err = f.what;
    }
    catch(const std::exception & e)
    {
      err = std::string("unexpected exception: ") + e.what();
    }
    if(!err.empty())
    {
      std::printf("FAIL case=%ld seed=%llu %s\n", k, (unsigned long long)seed, err.c_str());
      return 1;
    }
    done++;
  }
  std::printf("OK cases=%ld\n", done);
  return 0;
}
