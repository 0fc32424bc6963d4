#include "replay.hpp"
#include "rothelp.hpp"
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/noise/gaussian-white-noise.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using vp::Args;
using vp::Out;

struct Sys
{
  DynamicalSystemFunctorBase * f;
  std::function<void(double)> dt;
  std::function<void(NoiseBase *)> pn, mn;
  std::function<void()> rpn, rmn;
  std::function<NoiseBase *()> gpn, gmn;
};
template<typename T>
static Sys wrap(T * t)
{
  Sys s;
  s.f = t;
  s.dt = [t](double d) { t->setSamplingPeriod(d); };
  s.pn = [t](NoiseBase * n) { t->setProcessNoise(n); };
  s.mn = [t](NoiseBase * n) { t->setMeasurementNoise(n); };
  s.rpn = [t]() { t->resetProcessNoise(); };
  s.rmn = [t]() { t->resetMeasurementNoise(); };
  s.gpn = [t]() { return t->getProcessNoise(); };
  s.gmn = [t]() { return t->getMeasurementNoise(); };
  return s;
}

struct Adapter
{
  long kind = 0;
  Sys s;
  std::unique_ptr<DynamicalSystemFunctorBase> own;
  std::vector<std::unique_ptr<GaussianWhiteNoise>> noises;

  GaussianWhiteNoise * noise(const Vector & b)
  {
    noises.emplace_back(new GaussianWhiteNoise(b.size()));
    noises.back()->setStandardDeviation(Matrix::Zero(b.size(), b.size()));
    noises.back()->setBias(b);
    return noises.back().get();
  }
  long n() { return kind == 5 ? 4 : kind == 2 ? 19 : 18; }
  // state with its orientation as a matrix; whether the orientation is proper
  bool seen(const Vector & x, Out & o)
  {
    if(x.size() != n()) throw std::runtime_error("state size");
    if(kind == 5)
    {
      o.M_(x);
      return true;
    }
    o.M_(x.head(3));
    bool ok;
    if(kind == 2)
    {
      Vector4 q = x.segment(3, 4);
      ok = std::abs(q.norm() - 1) < 1e-6;
      o.M_(vp::quatMat(q));
      o.M_(x.tail(12));
    }
    else
    {
      Vector3 v = x.segment(3, 3);
      ok = v.norm() <= M_PI + 1e-9;
      o.M_(vp::rodrigues(v));
      o.M_(x.tail(12));
    }
    return ok;
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      kind = a.I();
      double d = a.R();
#define VP_KIND(K, T)      \
  if(kind == K)            \
  {                        \
    auto * t = T;          \
    own.reset(t);          \
    s = wrap(t);           \
  }
      VP_KIND(0, new IMUDynamicalSystem)
      VP_KIND(1, new IMUMagnetometerDynamicalSystem)
      VP_KIND(2, new IMUMltpctiveDynamicalSystem)
      VP_KIND(3, new IMUFixedContactDynamicalSystem(d))
      VP_KIND(4, new StableIMUFixedContactDynamicalSystem(d))
      if(kind == 5)
      {
        auto * t = new BidimElasticInvPendulum;
        own.reset(t);
        s = wrap(t);
      }
    }
    else if(op == "dt")
      s.dt(a.R());
    else if(op == "processNoise")
    {
      if(a.B())
        s.pn(noise(a.V(n())));
      else
        s.rpn();
      if((s.gpn() != nullptr) != (a.i[0] != 0)) throw std::runtime_error("getProcessNoise");
    }
    else if(op == "measureNoise")
    {
      if(a.B())
        s.mn(noise(a.V(kind == 1 ? 9 : 6)));
      else
        s.rmn();
    }
    else if(op == "contacts" || op == "contact")
    {
      long i = a.I();
      auto * f = dynamic_cast<IMUFixedContactDynamicalSystem *>(own.get());
      auto * g = dynamic_cast<StableIMUFixedContactDynamicalSystem *>(own.get());
      if(op == "contacts")
        f ? f->setContactsNumber(i) : g->setContactsNumber(i);
      else
      {
        Vector3 p = a.V3();
        f ? f->setContactPosition(i, p) : g->setContactPosition(i, p);
      }
    }
    else if(op == "param")
    {
      auto * b = static_cast<BidimElasticInvPendulum *>(own.get());
      long w = a.I();
      double v = a.R();
      if(w == 0) b->setElasticity(v);
      if(w == 1) b->setMass(v);
      if(w == 2) b->setHeight(v);
    }
    else if(op == "dynamics" || op == "measure")
    {
      long k = a.I();
      Vector x = a.V(n());
      Vector u = a.V(a.r.size() - n());
      if(op == "dynamics")
      {
        bool ok = seen(own->stateDynamics(x, u, k), o);
        o.I(ok);
      }
      else
        o.M_(own->measureDynamics(x, u, k));
      return;
    }
    else if(op == "twice")
    {
      Vector x = a.V(n()), y = a.V(n()), u = a.V(a.r.size() - 2 * n());
      bool ok = seen(own->stateDynamics(x, u, 1), o);
      o.M_(own->measureDynamics(y, u, 1));
      ok = seen(own->stateDynamics(y, u, 1), o) && ok;
      o.M_(own->measureDynamics(x, u, 1));
      o.I(ok);
      return;
    }
    else if(op == "badSize")
    {
      long w = a.I(), sx = a.I(), su = a.I();
      if(w == 1)
        own->measureDynamics(Vector::Zero(sx), Vector::Zero(su), 0);
      else
        own->stateDynamics(Vector::Zero(sx), Vector::Zero(su), 0);
    }
    else if(op == "sum" || op == "difference" || op == "jacobianA" || op == "jacobianC")
    {
      auto * t = static_cast<IMUMltpctiveDynamicalSystem *>(own.get());
      Vector x = a.V(19);
      Vector r = Vector::Constant(2, 3.);
      if(op == "sum")
      {
        t->stateSum(x, a.V(18), r);
        bool ok = seen(r, o);
        o.I(ok);
      }
      if(op == "difference")
      {
        t->stateDifference(x, a.V(19), r);
        o.M_(r);
      }
      if(op == "jacobianA") o.S(t->getAMatrix(x));
      if(op == "jacobianC") o.S(t->getCMatrix(x));
      return;
    }
    else if(op == "plain")
    {
      long w = a.I(), d = a.I();
      Vector x = a.V(d), y = a.V(d), r;
      StateVectorArithmetics t;
      if(w == 0) t.stateSum(x, y, r);
      if(w == 1) t.stateDifference(x, y, r);
      if(w == 2) t.measurementDifference(x, y, r);
      o.M_(r);
      return;
    }
    else
      throw std::runtime_error("harness: op " + op);
    o.I(own->getStateSize()).I(own->getInputSize()).I(own->getMeasurementSize());
    o.I(s.gpn() != nullptr).I(s.gmn() != nullptr);
  }
};
VP_REPLAY_MAIN(Adapter)
