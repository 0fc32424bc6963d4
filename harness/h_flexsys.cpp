#include "replay.hpp"
#include "rothelp.hpp"
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
#include <state-observation/noise/gaussian-white-noise.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using vp::Args;
using vp::Out;

struct Adapter
{
  typedef IMUElasticLocalFrameDynamicalSystem Sys;
  std::unique_ptr<Sys> f;
  std::vector<std::unique_ptr<GaussianWhiteNoise>> noises;
  GaussianWhiteNoise * noise(const Vector & b)
  {
    noises.emplace_back(new GaussianWhiteNoise(b.size()));
    noises.back()->setStandardDeviation(Matrix::Zero(b.size(), b.size()));
    noises.back()->setBias(b);
    return noises.back().get();
  }
  Vector U(Args & a) { return a.V(f->getInputSize()); }
  static void seen(const Vector & x, Out & o) // position, orientation, rest
  {
    o.M_(x.head(3)).M_(vp::rodrigues(Vector3(x.segment(3, 3)))).M_(x.tail(x.size() - 6));
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      double dt = a.R();
      f.reset(new Sys(dt));
      f->setContactModel(unsigned(a.I()));
      f->setPe(a.V3());
    }
    else if(op == "dt")
      f->setSamplingPeriod(a.R());
    else if(op == "mass")
      f->setRobotMass(a.R());
    else if(op == "stiffness")
    {
      long w = a.I();
      Matrix3 k = a.M3();
      if(w == 0) f->setKfe(k);
      if(w == 1) f->setKfv(k);
      if(w == 2) f->setKte(k);
      if(w == 3) f->setKtv(k);
      if(w == 4) f->setKfeRopes(k);
      if(w == 5) f->setKfvRopes(k);
      if(w == 6) f->setKteRopes(k);
      if(w == 7) f->setKtvRopes(k);
    }
    else if(op == "contacts")
    {
      f->resetMeasurementNoise();
      f->setContactsNumber(unsigned(a.I()));
    }
    else if(op == "model")
      f->setContactModel(unsigned(a.I()));
    else if(op == "flag")
    {
      f->resetMeasurementNoise();
      long w = a.I();
      bool b = a.B();
      if(w == 0) f->setWithForceMeasurements(b);
      if(w == 1) f->setWithComBias(b);
      if(w == 2) f->setWithAbsolutePosition(b);
      if(w == 3) f->setWithUnmodeledForces(b);
    }
    else if(op == "processNoise")
    {
      if(a.B())
        f->setProcessNoise(noise(a.V(35)));
      else
        f->resetProcessNoise();
    }
    else if(op == "measureNoise")
    {
      if(a.B())
        f->setMeasurementNoise(noise(a.V(f->getMeasurementSize())));
      else
        f->resetMeasurementNoise();
    }
    else if(op == "dynamics")
    {
      long k = a.I();
      Vector x = a.V(35), u = a.V(long(a.r.size()) - 35);
      Vector y = f->stateDynamics(x, u, k);
      if(y.size() != 35) throw std::runtime_error("state size");
      seen(y, o);
      o.I(Vector3(y.segment(3, 3)).norm() <= M_PI + 1e-9);
      return;
    }
    else if(op == "measure")
    {
      long k = a.I();
      Vector x = a.V(35), u = a.V(long(a.r.size()) - 35);
      Vector y = f->measureDynamics(x, u, k);
      if(f->getWithAbsolutePosition())
        o.M_(y.head(y.size() - 3)).M_(vp::rodrigues(Vector3(y.tail(3))));
      else
        o.M_(y);
      return;
    }
    else if(op == "derived")
    {
      long w = a.I();
      Vector x = a.V(35), u = U(a);
      if(w == 0) o.M_(f->computeAccelerations(x, u));
      if(w == 1) o.M_(f->getForcesAndMoments(x, u));
      if(w == 2) o.M_(f->getMomentaDotFromForces(x, u));
      if(w == 3) o.M_(f->getMomentaDotFromKinematics(x, u));
      return;
    }
    else if(op == "runge")
    {
      Vector x = a.V(35), u = U(a);
      double dt = a.R();
      f->stateDynamics(x, u, 0); // the motion of the contacts
      IndexedVectorArray cp, co;
      for(unsigned i = 0; i < f->getContactsNumber(); ++i)
      {
        cp.setValue(u.segment(48 + 12 * i, 3), i);
        co.setValue(u.segment(51 + 12 * i, 3), i);
      }
      Vector fc(6), tc(6);
      fc << x.segment(12, 3), x.segment(18, 3);
      tc << x.segment(15, 3), x.segment(21, 3);
      Matrix3 I, Id;
      I << u(9), u(12), u(13), u(12), u(10), u(14), u(13), u(14), u(11);
      Id << u(18), u(21), u(22), u(21), u(19), u(23), u(22), u(23), u(20);
      Vector3 p = x.head(3), w = x.segment(3, 3), v = x.segment(6, 3), av = x.segment(9, 3), com = u.head(3);
      if(f->getWithComBias()) com.head(2) -= x.segment(30, 2);
      f->iterateDynamicsRK4(com, u.segment(3, 3), u.segment(6, 3), u.segment(15, 3), u.segment(24, 3), I, Id, cp, co, p,
                            v, fc, w, av, tc, x.segment(24, 3), x.segment(27, 3), u.segment(42, 3), u.segment(45, 3),
                            dt);
      Vector y(24);
      y << p, w, v, av, fc.head(3), tc.head(3), fc.tail(3), tc.tail(3);
      seen(y, o);
      return;
    }
    else if(op == "jacobians")
    {
      Vector x = a.V(35), u = U(a), z = a.V(35), v = U(a), dx = a.V(35), r = a.V(35);
      f->setFDstep(dx);
      f->stateDynamics(x, u, 1);
      f->measureDynamics(z, v, 1);
      f->measureDynamicsJacobian();
      Matrix A = f->stateDynamicsJacobian(), C = f->measureDynamicsJacobian();
      if(f->stateDynamicsJacobian() != A) throw std::runtime_error("the derivatives changed");
      o.I(A.rows()).I(A.cols()).I(C.rows()).I(C.cols());
      o.M_(A * r).M_(C * r);
      return;
    }
    else if(op == "badSize")
    {
      long w = a.I(), sx = a.I(), su = a.I();
      if(w == 1)
        f->measureDynamics(Vector::Zero(sx), Vector::Zero(su), 0);
      else
        f->stateDynamics(Vector::Zero(sx), Vector::Zero(su), 0);
    }
    else
      throw std::runtime_error("harness: op " + op);
    o.I(f->getStateSize()).I(f->getInputSize()).I(f->getMeasurementSize()).I(f->getContactsNumber());
    o.I(f->getWithForceMeasurements()).I(f->getWithComBias()).I(f->getWithAbsolutePosition());
    o.I(f->getProcessNoise() != nullptr).I(f->getMeasurementNoise() != nullptr);
    o.R(f->getRobotMass()).M_(f->getKfe()).M_(f->getKfv()).M_(f->getKte()).M_(f->getKtv());
  }
};
VP_REPLAY_MAIN(Adapter)
