#include "replay.hpp"
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
using namespace stateObservation;
using vp::Args;
using vp::Out;

struct Model : DynamicalSystemFunctorBase
{
  Matrix A, B, C, D;
  static Vector bend(Vector v, const Vector & w, long k, double g)
  {
    Vector r(v.size());
    for(Index i = 0; i < v.size(); ++i) r(i) = v(i) / g + v(i) * w(0) / 64 + k / 16.;
    return r;
  }
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    return bend(A * x + B * u, u, k, 2);
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    return bend(C * x + D * u, x, -k, 1);
  }
  Index getStateSize() const override { return A.rows(); }
  Index getInputSize() const override { return B.cols(); }
  Index getMeasurementSize() const override { return C.rows(); }
};

struct Adapter
{
  long n = 1, p = 1, q = 1;
  bool has = false;
  std::vector<std::unique_ptr<Model>> f;
  std::unique_ptr<DynamicalSystemSimulator> s;

  static void arr(const IndexedVectorArray & v, Out & o)
  {
    o.I(v.getFirstIndex()).I(v.size());
    for(TimeIndex k = v.getFirstIndex(); k < v.getNextIndex(); ++k) o.M_(v[k]);
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      n = a.I();
      p = a.I();
      q = a.I();
      s.reset(new DynamicalSystemSimulator);
      has = false;
    }
    else if(op == "functor")
    {
      std::unique_ptr<Model> m(new Model);
      m->A = a.M(n, n);
      m->B = a.M(n, p);
      m->C = a.M(q, n);
      m->D = a.M(q, p);
      s->setDynamicsFunctor(m.get());
      f.push_back(std::move(m));
    }
    else if(op == "state")
    {
      s->setState(a.V(n), a.I());
      has = true;
    }
    else if(op == "input")
      s->setInput(a.V(p), a.I());
    else if(op == "getInput")
    {
      o.M_(s->getInput(a.I()));
      return;
    }
    else if(op == "simulate")
      s->simulateDynamics();
    else if(op == "simulateTo")
      s->simulateDynamicsTo(a.I());
    else if(op == "getState" || op == "getMeasure")
    {
      long k = a.I();
      Vector v = op == "getState" ? s->getState(k) : s->getMeasurement(k);
      o.I(s->getCurrentTime()).M_(v);
      return;
    }
    else if(op == "stateArray" || op == "measureArray")
    {
      long k = a.I(), d = a.I();
      IndexedVectorArray v = op == "stateArray" ? s->getStateArray(k, d) : s->getMeasurementArray(k, d);
      o.I(s->getCurrentTime());
      arr(v, o);
      return;
    }
    else if(op == "resetDynamics")
    {
      s->resetDynamics();
      has = false;
    }
    else if(op == "resetSimulator")
    {
      s->resetSimulator();
      has = false;
    }
    else
      throw std::runtime_error("harness: op " + op);
    o.I(has);
    if(has)
    {
      o.I(s->getCurrentTime());
      o.M_(s->getCurrentState());
    }
  }
};
VP_REPLAY_MAIN(Adapter)
