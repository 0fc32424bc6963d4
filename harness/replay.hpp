// Line protocol between the runner and the code under test.
//   stdin : "T" starts a new behaviour; "<op> <ni> i... <nr> r..." executes one step
//   stdout: "ok <ni> i... <nr> r..."  or  "rej <reason>"   (one line per step)
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include <state-observation/tools/definitions.hpp>

namespace vp
{
using stateObservation::Index;
using stateObservation::Matrix;
using stateObservation::Vector;

struct Args
{
  std::vector<long> i;
  std::vector<double> r;
  size_t pi = 0, pr = 0;
  long I()
  {
    if(pi >= i.size()) throw std::runtime_error("harness: missing int");
    return i[pi++];
  }
  bool B() { return I() != 0; }
  double R()
  {
    if(pr >= r.size()) throw std::runtime_error("harness: missing real");
    return r[pr++];
  }
  Vector V(long n)
  {
    Vector v(n);
    for(long k = 0; k < n; ++k) v(k) = R();
    return v;
  }
  Matrix M(long n, long m)
  {
    Matrix a(n, m);
    for(long x = 0; x < n; ++x)
      for(long y = 0; y < m; ++y) a(x, y) = R();
    return a;
  }
  stateObservation::Vector3 V3()
  {
    stateObservation::Vector3 v;
    for(int k = 0; k < 3; ++k) v(k) = R();
    return v;
  }
  stateObservation::Matrix3 M3()
  {
    stateObservation::Matrix3 v;
    for(int k = 0; k < 3; ++k)
      for(int l = 0; l < 3; ++l) v(k, l) = R();
    return v;
  }
};

struct Out
{
  std::vector<long> i;
  std::vector<double> r;
  Out & I(long x)
  {
    i.push_back(x);
    return *this;
  }
  Out & R(double x)
  {
    r.push_back(x);
    return *this;
  }
  template<typename M>
  Out & M_(const Eigen::MatrixBase<M> & m0)
  {
    const Matrix m = m0;
    for(Index a = 0; a < m.rows(); ++a)
      for(Index b = 0; b < m.cols(); ++b) r.push_back(m(a, b));
    return *this;
  }
  // matrix with its shape among the integers
  template<typename M>
  Out & S(const Eigen::MatrixBase<M> & m0)
  {
    I(m0.rows());
    I(m0.cols());
    return M_(m0);
  }
};

// Adapter: void begin();  void exec(const std::string&, Args&, Out&)
template<typename Adapter>
int replay_main()
{
  std::cout.rdbuf(nullptr); // messages of the code under test are not observations
  std::unique_ptr<Adapter> ad(new Adapter);
  std::string line;
  while(std::getline(std::cin, line))
  {
    if(line.empty()) continue;
    if(line == "T")
    {
      ad.reset(new Adapter);
      continue;
    }
    std::stringstream ss(line);
    std::string op;
    ss >> op;
    Args a;
    Out o;
    size_t n;
    ss >> n;
    a.i.resize(n);
    for(auto & x : a.i) ss >> x;
    ss >> n;
    a.r.resize(n);
    for(auto & x : a.r)
    {
      std::string t;
      ss >> t;
      x = std::strtod(t.c_str(), nullptr);
    }
    std::string rej;
    bool ok = true;
    try
    {
      ad->exec(op, a, o);
    }
    catch(const std::exception & e)
    {
      ok = false;
      rej = e.what();
    }
    catch(...)
    {
      ok = false;
      rej = "unknown exception";
    }
    if(ok)
    {
      std::printf("ok %zu", o.i.size());
      for(auto x : o.i) std::printf(" %ld", x);
      std::printf(" %zu", o.r.size());
      for(auto x : o.r) std::printf(" %.17g", x);
      std::printf("\n");
    }
    else
    {
      for(auto & c : rej)
        if(c == '\n') c = ' ';
      std::printf("rej %s\n", rej.c_str());
    }
    std::fflush(stdout);
  }
  return 0;
}
} // namespace vp


#define VP_REPLAY_MAIN(A)                                                                   \
  namespace boost                                                                           \
  {                                                                                         \
  void assertion_failed(char const * e, char const *, char const *, long)                   \
  {                                                                                         \
    throw vp::Refused(std::string("assert: ") + e);                                         \
  }                                                                                         \
  void assertion_failed_msg(char const * e, char const * m, char const *, char const *, long) \
  {                                                                                         \
    throw vp::Refused(std::string("assert: ") + e + " : " + m);                             \
  }                                                                                         \
  }                                                                                         \
  int main()                                                                                \
  {                                                                                         \
    return vp::replay_main<A>();                                                            \
  }
