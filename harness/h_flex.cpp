#include "replay.hpp"
#include "rothelp.hpp"
#include <limits>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
using namespace stateObservation;
using namespace stateObservation::flexibilityEstimation;
using vp::Args;
using vp::Out;

// a user's own derivation steps
struct Fixed : public FixedContactEKFFlexEstimatorIMU
{
  Fixed(double dt, const Vector & dx) : FixedContactEKFFlexEstimatorIMU(dt) { useFiniteDifferencesJacobians(dx); }
};
struct Elastic : public ModelBaseEKFFlexEstimatorIMU
{
  Elastic(double dt, const Vector & dx) : ModelBaseEKFFlexEstimatorIMU(dt)
  {
    useFiniteDifferencesJacobians(dx);
    dynamic_cast<IMUElasticLocalFrameDynamicalSystem &>(*ekf_.getFunctor()).setFDstep(dx);
  }
};

struct Adapter
{
  std::unique_ptr<Fixed> fx;
  std::unique_ptr<Elastic> el;
  EKFFlexibilityEstimatorBase & b() { return fx ? static_cast<EKFFlexibilityEstimatorBase &>(*fx) : *el; }
  ModelBaseEKFFlexEstimatorIMU & e() { return *el; }
  const ExtendedKalmanFilter & kf() { return static_cast<const EKFFlexibilityEstimatorBase &>(b()).getEKF(); }
  void lookI(Out & o)
  {
    o.I(kf().getCurrentTime()).I(b().getStateSize()).I(b().getInputSize()).I(b().getMeasurementSize());
    o.I(kf().getMeasureSize()).I(kf().getMeasurementsNumber() > 0).I(long(kf().getInputsNumber()));
  }
  static void seenX(const Vector & x, Out & o)
  {
    o.M_(x.head(3)).M_(vp::rodrigues(Vector3(x.segment(3, 3)))).M_(x.tail(x.size() - 6));
  }
  static void cov(const Matrix & p, Args & a, Out & o)
  {
    Vector d = a.V(p.rows());
    if(p.cols() != p.rows()) throw std::runtime_error("not square");
    for(Index i = 0; i < p.rows(); ++i)
      for(Index j = 0; j < p.cols(); ++j) o.R(p(i, j) / (d(i) * d(j)));
  }
  void create(long kind, Args & a)
  {
    double dt = a.R();
    fx.reset();
    el.reset();
    if(kind == 0)
      fx.reset(new Fixed(dt, a.V(18)));
    else
      el.reset(new Elastic(dt, a.V(35)));
  }
  void stiffness(long w, const Matrix3 & k)
  {
    if(w == 0) e().setKfe(k);
    if(w == 1) e().setKfv(k);
    if(w == 2) e().setKte(k);
    if(w == 3) e().setKtv(k);
    if(w == 4) e().setKfeRopes(k);
    if(w == 5) e().setKfvRopes(k);
    if(w == 6) e().setKteRopes(k);
    if(w == 7) e().setKtvRopes(k);
  }
  void flag(long w, bool v)
  {
    if(w == 0) e().setWithForcesMeasurements(v);
    if(w == 1) e().setWithComBias(v);
    if(w == 2) e().setWithAbsolutePos(v);
    if(w == 3) e().setWithUnmodeledForces(v);
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    const long nx = fx ? 18 : 35;
    const long nu = (fx || el) ? b().getInputSize() : 0;
    const long ny = (fx || el) ? b().getMeasurementSize() : 0;
    if(op == "new")
      create(a.I(), a);
    else if(op == "newElastic")
    {
      create(a.I(), a);
      e().setContactModel(unsigned(a.I()));
      e().setContactsNumber(unsigned(a.I()));
      flag(0, a.B());
      flag(1, a.B());
      flag(2, a.B());
      flag(3, a.B());
      for(int i = 0; i < 8; ++i) stiffness(i, a.M3());
      e().setPe(a.V3());
    }
    else if(op == "measInput")
      b().setMeasurementInput(a.V(nu));
    else if(op == "input")
      b().setInput(a.V(nu));
    else if(op == "measure")
    {
      bool bad = a.B();
      long at = a.I();
      Vector y = a.V(ny);
      if(bad) y(at) = std::numeric_limits<double>::quiet_NaN();
      b().setMeasurement(y);
    }
    else if(op == "badData")
    {
      long w = a.I();
      Vector v = Vector::Zero(a.I());
      if(w == 0) b().setMeasurement(v);
      if(w == 1) b().setInput(v);
      if(w == 2) b().setMeasurementInput(v);
    }
    else if(op == "cycle")
    {
      if(a.B()) b().setInput(a.V(nu));
      b().setMeasurementInput(a.V(nu));
      b().setMeasurement(a.V(ny));
    }
    else if(op == "result")
    {
      long w = a.I();
      bool inn = a.i.size() > 1 && a.B();
      Out s;
      if(w == 0)
        seenX(b().getFlexibilityVector(), s);
      else
      {
        Matrix4 h = b().getFlexibility();
        if(h(3, 0) != 0 || h(3, 1) != 0 || h(3, 2) != 0 || h(3, 3) != 1) throw std::runtime_error("not homogeneous");
        s.M_(h.block(0, 0, 3, 3)).M_(h.block(0, 3, 3, 1));
      }
      lookI(o);
      for(double r : s.r) o.R(r);
      o.M_(kf().getCurrentEstimatedState());
      cov(b().getFlexibilityCovariance(), a, o);
      if(inn) o.M_(b().getInnovation());
      return;
    }
    else if(op == "consequence")
    {
      long w = a.I();
      Vector v;
      if(w == 0) v = b().getSimulatedMeasurement();
      if(w == 1) v = e().getForcesAndMoments();
      if(w == 2) v = e().getMomentaDotFromForces();
      if(w == 3) v = e().getMomentaDotFromKinematics();
      if(w == 4) v = e().computeAccelerations();
      lookI(o);
      o.M_(kf().getCurrentEstimatedState()).M_(v);
      return;
    }
    else if(op == "prediction")
    {
      Vector v = a.I() == 0 ? b().getPrediction() : b().getPredictedMeasurement();
      lookI(o);
      o.M_(v);
      return;
    }
    else if(op == "lastPrediction")
    {
      lookI(o);
      o.M_(a.I() == 0 ? b().getLastPrediction() : b().getLastPredictedMeasurement());
      return;
    }
    else if(op == "given")
    {
      lookI(o);
      long w = a.I();
      o.M_(w == 0 ? b().getMeasurement() : w == 1 ? b().getInput() : b().getMeasurementInput());
      return;
    }
    else if(op == "settings")
    {
      lookI(o);
      long w = a.I();
      if(w < 3)
      {
        Matrix p = w == 0 ? b().getFlexibilityCovariance()
                          : w == 1 ? b().getProcessNoiseCovariance() : b().getMeasurementNoiseCovariance();
        o.I(p.rows());
        cov(p, a, o);
        if(w == 0 && el && e().getStateCovariance() != p.diagonal()) throw std::runtime_error("state covariance");
        if(w == 1 && kf().getQ() != p) throw std::runtime_error("Q of the filter");
        if(w == 2 && kf().getR().topLeftCorner(p.rows(), p.cols()) != p) throw std::runtime_error("R of the filter");
      }
      else if(fx)
        o.R(fx->getVirtualMeasurementsCovariance() * 1e6);
      else
      {
        o.I(e().getContactsNumber()).I(e().getWithForcesMeasurements()).I(e().getWithAbsolutePos());
        o.I(e().getWithUnmodeledForces()).I(e().getWithComBias()).I(e().getLimitOn());
        o.R(e().getRobotMass()).M_(e().getKfe()).M_(e().getKfv()).M_(e().getKte()).M_(e().getKtv());
        o.M_(e().getForcesLimit()).M_(e().getTorquesLimit());
      }
      return;
    }
    else if(op == "observability")
    {
      Vector r = a.V(35);
      lookI(o);
      Matrix m = e().computeLocalObservationMatrix();
      if(m.rows() != 2 * ny || m.cols() != 35) throw std::runtime_error("shape of the observation matrix");
      o.M_(m * r).M_(e().getAMatrix() * r);
      if(e().getCMatrix() != m.topRows(ny)) throw std::runtime_error("C");
      return;
    }
    else if(op == "contacts")
    {
      if(fx)
        fx->setContactsNumber(unsigned(a.I()));
      else
        e().setContactsNumber(unsigned(a.I()));
    }
    else if(op == "contactAt")
    {
      long i = a.I();
      fx->setContactPosition(unsigned(i), a.V3());
    }
    else if(op == "virtualCov")
      fx->setVirtualMeasurementsCovariance(a.R());
    else if(op == "dt")
    {
      if(fx)
        fx->setSamplingPeriod(a.R());
      else
        e().setSamplingPeriod(a.R());
    }
    else if(op == "guess")
    {
      long w = a.I();
      if(w == 0) b().setFlexibilityGuess(a.M(nx, 1));
      if(w == 1) b().setFlexibilityGuess(a.M(6, 1));
      if(w == 2) b().setFlexibilityGuess(a.M(4, 4));
    }
    else if(op == "P")
      b().setFlexibilityCovariance(a.M(nx, nx));
    else if(op == "Q")
      b().setProcessNoiseCovariance(a.M(nx, nx));
    else if(op == "R")
    {
      long k = a.I();
      b().setMeasurementNoiseCovariance(a.M(k, k));
    }
    else if(op == "badR")
    {
      long k = a.I();
      b().setMeasurementNoiseCovariance(Matrix::Identity(k, k));
    }
    else if(op == "resetCov")
      b().resetCovarianceMatrices();
    else if(op == "model")
      e().setContactModel(unsigned(a.I()));
    else if(op == "stiffness")
    {
      long w = a.I();
      stiffness(w, a.M3());
    }
    else if(op == "mass")
      e().setRobotMass(a.R());
    else if(op == "pe")
      e().setPe(a.V3());
    else if(op == "flag")
    {
      long w = a.I();
      flag(w, a.B());
    }
    else if(op == "forceVariance")
    {
      if(a.I() == 0)
        e().setForceVariance(a.R());
      else
        e().setForceVariance(a.M3());
    }
    else if(op == "poseVariance")
      e().setAbsolutePosVariance(a.R());
    else if(op == "unmodelled")
    {
      if(a.I() == 0)
        e().setUnmodeledForceVariance(a.R());
      else
        e().setUnmodeledForceProcessVariance(a.R());
    }
    else if(op == "limits")
    {
      long w = a.I();
      if(w == 0) e().setForcesLimit(a.V3());
      if(w == 1) e().setTorquesLimit(a.V3());
      if(w == 2) e().setLimitOn(a.B());
    }
    else if(op == "on")
    {
      bool v = a.B();
      e().setOn(v);
    }
    else if(op == "resetP")
      e().resetStateCovarianceMatrix();
    else if(op == "biasGuess")
      e().setComBiasGuess(a.V(2));
    else
      throw std::runtime_error("harness: op " + op);
    lookI(o);
    o.M_(kf().getCurrentEstimatedState());
  }
};
VP_REPLAY_MAIN(Adapter)
