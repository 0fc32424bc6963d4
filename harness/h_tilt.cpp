#include "replay.hpp"
#include <state-observation/observer/tilt-estimator.hpp>
using namespace stateObservation;
using vp::Args;
using vp::Out;

struct Adapter
{
  std::unique_ptr<TiltEstimator> e;
  void look(Out & o)
  {
    bool s = e->stateIsSet();
    o.I(s);
    o.R(e->getAlpha()).R(e->getBeta()).R(e->getGamma()).R(e->getSamplingTime());
    o.M_(e->getSensorPositionInC()).M_(e->getSensorOrientationInC()).M_(e->getSensorLinearVelocityInC());
    o.M_(e->getSensorAngularVelocityInC()).M_(e->getControlOriginVelocityInW());
    if(s)
    {
      o.I(e->getCurrentTime());
      o.M_(e->getCurrentEstimatedState());
    }
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      double x = a.R(), y = a.R(), z = a.R();
      e.reset(new TiltEstimator(x, y, z));
    }
    else if(op == "state")
      e->setState(a.V(9), a.I());
    else if(op == "current")
      e->setCurrentState(a.V(9));
    else if(op == "gain")
    {
      long w = a.I();
      double v = a.R();
      if(w == 0) e->setAlpha(v);
      if(w == 1) e->setBeta(v);
      if(w == 2) e->setGamma(v);
      if(w == 3) e->setSamplingTime(v);
    }
    else if(op == "kine")
    {
      long w = a.I();
      if(w == 0) e->setSensorPositionInC(a.V3());
      if(w == 1) e->setSensorOrientationInC(a.M3());
      if(w == 2) e->setSensorLinearVelocityInC(a.V3());
      if(w == 3) e->setSensorAngularVelocityInC(a.V3());
      if(w == 4) e->setControlOriginVelocityInW(a.V3());
    }
    else if(op == "kineAll")
    {
      e->setSensorPositionInC(a.V3());
      e->setSensorOrientationInC(a.M3());
      e->setSensorLinearVelocityInC(a.V3());
      e->setSensorAngularVelocityInC(a.V3());
      e->setControlOriginVelocityInW(a.V3());
    }
    else if(op == "measure")
    {
      long how = a.I(), k = a.I();
      Vector y = a.V(6);
      ZeroDelayObserver & b = *e;
      if(how == 0) e->setMeasurement(Vector3(y.head<3>()), Vector3(y.tail<3>()), k);
      if(how == 1) b.setMeasurement(y, k);
      if(how == 2) b.pushMeasurement(y);
    }
    else if(op == "estimate")
    {
      Vector x = e->getEstimatedState(a.I());
      if(x != e->getCurrentEstimatedState()) throw std::runtime_error("another state is returned");
    }
    else if(op == "estimateAll")
    {
      if(e->estimateState() != e->getCurrentTime()) throw std::runtime_error("another time is returned");
    }
    else if(op == "unset")
    {
      e->clearStates();
      e->clearMeasurements();
    }
    else
      throw std::runtime_error("harness: op " + op);
    look(o);
  }
};
VP_REPLAY_MAIN(Adapter)
