#include "replay.hpp"
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>
using namespace stateObservation;
using vp::Args;
using vp::Out;

// the user's model, by coefficients
struct Model : public DynamicalSystemFunctorBase
{
  Index n, m, p;
  Matrix F, G, H, L;
  Vector q, r;
  long resets = 0;
  void reset() override
  {
    ++resets;
  }
  Model(Index n_, Index m_, Index p_, Args & a) : n(n_), m(m_), p(p_)
  {
    fill(a);
  }
  void fill(Args & a)
  {
    F = a.M(n, n);
    G = a.M(n, p);
    q = a.V(n);
    H = a.M(m, n);
    L = a.M(m, p);
    r = a.V(m);
  }
  static double sg(double z) { return z / (1 + z * z); }
  static double md(TimeIndex k) { return double(((k % 3) + 3) % 3); }
  Vector stateDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    if(x.size() != n || u.size() != p) throw vp::Refused("model called with wrong sizes");
    Vector o = F * x;
    if(p > 0) o += G * u;
    for(Index i = 0; i < n; ++i) o(i) += q(i) * sg(x((i + 1) % n)) + md(k) * q(i) / 8;
    return o;
  }
  Vector measureDynamics(const Vector & x, const Vector & u, TimeIndex k) override
  {
    if(x.size() != n || u.size() != p) throw vp::Refused("model called with wrong sizes");
    Vector o = H * x;
    if(p > 0) o += L * u;
    for(Index i = 0; i < m; ++i) o(i) += r(i) * sg(x(i % n)) + double(k % 2 != 0) * r(i) / 8;
    return o;
  }
  Index getStateSize() const override { return n; }
  Index getInputSize() const override { return p; }
  Index getMeasurementSize() const override { return m; }
};

// user-supplied operations with tangent vectors shorter than states
struct UserArith : public StateVectorArithmetics
{
  Index n, m;
  void stateSum(const Vector & x, const Vector & d, Vector & s) override
  {
    Vector o(n);
    for(Index i = 0; i < n - 1; ++i) o(i) = x(i) + 2 * d(i);
    o(n - 1) = x(n - 1) + d.sum();
    s = o;
  }
  void stateDifference(const Vector & a, const Vector & b, Vector & d) override
  {
    Vector o(n - 1);
    for(Index i = 0; i < n - 1; ++i) o(i) = (a(i) - b(i)) / 2;
    d = o;
  }
  void measurementDifference(const Vector & a, const Vector & b, Vector & d) override
  {
    Vector o(m - 1);
    for(Index i = 0; i < m - 1; ++i) o(i) = 3 * (a(i) - b(i)) + a(m - 1) - b(m - 1);
    d = o;
  }
};

struct Adapter
{
  std::unique_ptr<LinearKalmanFilter> lin;
  std::unique_ptr<ExtendedKalmanFilter> ekf;
  std::vector<std::unique_ptr<Model>> models;
  UserArith ua;
  Index n = 1, m = 1, p = 0, nt = 1, mt = 1;

  KalmanFilterBase & kf()
  {
    if(lin) return *lin;
    if(ekf) return *ekf;
    throw std::runtime_error("harness: no filter");
  }
  void create(Args & a)
  {
    lin.reset();
    ekf.reset();
    long kind = a.I();
    n = a.I();
    m = a.I();
    p = a.I();
    nt = a.I();
    mt = a.I();
    bool ar = a.B(), dOut = a.B(), dSt = a.B();
    if(kind == 0)
      lin.reset(new LinearKalmanFilter(n, m, p));
    else if(ar)
    {
      ekf.reset(new ExtendedKalmanFilter(n, nt, m, mt, p, dOut, dSt));
      ua.n = n;
      ua.m = m;
      ekf->setStateArithmetics(&ua);
    }
    else if(p == 0 && !dOut)
      ekf.reset(new ExtendedKalmanFilter(n, m));
    else
      ekf.reset(new ExtendedKalmanFilter(n, m, p, dOut, dSt));
  }
  void setModel(Args & a)
  {
    models.emplace_back(new Model(n, m, p, a));
    ekf->setFunctor(models.back().get());
  }
  void lookSet(Out & o)
  {
    look(o);
    KalmanFilterBase & k = kf();
    o.S(k.getA()).S(k.getC()).S(k.getQ()).S(k.getR());
  }
  void look(Out & o)
  {
    KalmanFilterBase & k = kf();
    bool xs = k.stateIsSet();
    long ny = long(k.getMeasurementsNumber()), nu = long(k.getInputsNumber());
    long ty = ny > 0 ? long(k.getMeasurementTime()) : 0, tu = nu > 0 ? long(k.getInputTime()) : 0;
    o.I(xs).I(xs ? long(k.getCurrentTime()) : 0).I(ny).I(ty).I(nu).I(tu);
    if(xs) o.M_(k.getCurrentEstimatedState());
    o.M_(k.getStateCovariance());
    for(long i = ty - ny + 1; ny > 0 && i <= ty; ++i) o.M_(k.getMeasurement(i));
    for(long i = tu - nu + 1; nu > 0 && i <= tu; ++i) o.M_(k.getInput(i));
  }
  void last(Out & o)
  {
    KalmanFilterBase & k = kf();
    o.M_(k.getLastPrediction()).M_(k.getLastPredictedMeasurement()).M_(k.getLastGain()).M_(k.getInnovation());
  }
  bool hasLast = false;
  template<typename T>
  void copy(std::unique_ptr<T> & f, long how, const T & other)
  {
    std::unique_ptr<T> c;
    if(how == 0)
      c.reset(new T(*f));
    else
    {
      c.reset(new T(other));
      *c = *f;
    }
    if(how == 2) *f = other;
    f.swap(c);
  }
  // shapes of constant, zero and random values, what is recognised as having the right shape, and the values
  template<typename K, typename Check>
  void shape(Out & o, double c, const K & k, const K & z, const K & r, Check right)
  {
    o.I(k.rows()).I(k.cols()).I(z.rows()).I(z.cols()).I(r.rows()).I(r.cols());
    bool v = K::ColsAtCompileTime == 1;
    K more = K::Zero(k.rows() + 1, k.cols()), wide = v ? more : K::Zero(k.rows(), k.cols() + 1);
    o.I(right(k)).I(right(more)).I(right(wide));
    if(k.size() == 0)
      o.R(0).R(0).R(0).R(0);
    else
      o.R(k.minCoeff()).R(k.maxCoeff()).R(z.minCoeff()).R(z.maxCoeff());
  }
  void shapes(Args & a, Out & o)
  {
    KalmanFilterBase & k = kf();
    a.I();
    double c = a.R();
    shape<Vector>(o, c, k.stateVectorConstant(c), k.stateVectorZero(), k.stateVectorRandom(), [&](const Vector & v) { return k.checkStateVector(v); });
    shape<Vector>(o, c, k.measureVectorConstant(c), k.measureVectorZero(), k.measureVectorRandom(), [&](const Vector & v) { return k.checkMeasureVector(v); });
    shape<Vector>(o, c, k.inputVectorConstant(c), k.inputVectorZero(), k.inputVectorRandom(), [&](const Vector & v) { return k.checkInputVector(v); });
    shape<Vector>(o, c, k.stateTangentVectorConstant(c), k.stateTangentVectorZero(), k.stateTangentVectorRandom(), [&](const Vector & v) { return k.checkStateTangentVector(v); });
    shape<Vector>(o, c, k.measureTangentVectorConstant(c), k.measureTangentVectorZero(), k.measureTangentVectorRandom(), [&](const Vector & v) { return k.checkMeasureTangentVector(v); });
    shape<Matrix>(o, c, k.getAmatrixConstant(c), k.getAmatrixZero(), k.getAmatrixRandom(), [&](const Matrix & v) { return k.checkAmatrix(v); });
    shape<Matrix>(o, c, k.getCmatrixConstant(c), k.getCmatrixZero(), k.getCmatrixRandom(), [&](const Matrix & v) { return k.checkCmatrix(v); });
    shape<Matrix>(o, c, k.getQmatrixConstant(c), k.getQmatrixZero(), k.getQmatrixRandom(), [&](const Matrix & v) { return k.checkQmatrix(v); });
    shape<Matrix>(o, c, k.getRmatrixConstant(c), k.getRmatrixZero(), k.getRmatrixRandom(), [&](const Matrix & v) { return k.checkRmatrix(v); });
    shape<Matrix>(o, c, k.getPmatrixConstant(c), k.getPmatrixZero(), k.getPmatrixRandom(), [&](const Matrix & v) { return k.checkPmatrix(v); });
    if(lin)
    {
      shape<Matrix>(o, c, lin->getBmatrixConstant(c), lin->getBmatrixZero(), lin->getBmatrixRandom(), [&](const Matrix & v) { return lin->checkBmatrix(v); });
      shape<Matrix>(o, c, lin->getDmatrixConstant(c), lin->getDmatrixZero(), lin->getDmatrixRandom(), [&](const Matrix & v) { return lin->checkDmatrix(v); });
    }
    o.I(k.getStateSize()).I(k.getMeasureSize()).I(k.getInputSize());
    o.M_(k.getAmatrixIdentity()).M_(k.getQmatrixIdentity()).M_(k.getRmatrixIdentity()).M_(k.getPmatrixIdentity());
  }

  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      create(a);
      hasLast = false;
    }
    else if(op == "newFull")
    {
      create(a);
      hasLast = false;
      bool hb = a.B(), hd = a.B();
      long t = a.I();
      KalmanFilterBase & k = kf();
      k.setA(a.M(nt, nt));
      k.setC(a.M(mt, nt));
      k.setQ(a.M(nt, nt));
      k.setR(a.M(mt, mt));
      Matrix P = a.M(nt, nt);
      if(hb) lin->setB(a.M(n, p));
      if(hd) lin->setD(a.M(m, p));
      if(ekf) setModel(a);
      k.setState(a.V(n), t);
      k.setStateCovariance(P);
    }
    else if(op == "setState")
    {
      long t = a.I();
      kf().setState(a.V(long(a.r.size())), t);
    }
    else if(op == "setCurrentState")
      kf().setCurrentState(a.V(n));
    else if(op == "setMeasurement")
    {
      long t = a.I();
      kf().setMeasurement(a.V(m), t);
    }
    else if(op == "pushMeasurement")
      kf().pushMeasurement(a.V(long(a.r.size())));
    else if(op == "setInput")
    {
      long t = a.I();
      kf().setInput(a.V(p), t);
    }
    else if(op == "pushInput")
      kf().pushInput(a.V(long(a.r.size())));
    else if(op == "feed")
    {
      long c = a.I();
      for(long i = 0; i < c; ++i)
      {
        kf().pushMeasurement(a.V(m));
        kf().pushInput(a.V(p));
      }
    }
    else if(op == "fillInputs")
    {
      long c = a.I();
      for(long i = 0; i < c; ++i) kf().pushInput(a.V(p));
    }
    else if(op == "estimateState" || op == "estimateTo")
    {
      KalmanFilterBase & k = kf();
      long t0 = k.stateIsSet() ? long(k.getCurrentTime()) : 0;
      if(op == "estimateState")
      {
        long t = long(k.estimateState());
        if(t != long(k.getCurrentTime())) o.I(-77);
      }
      else
      {
        Vector x = k.getEstimatedState(a.I());
        if(x != k.getCurrentEstimatedState()) o.I(-78);
      }
      look(o);
      if(long(k.getCurrentTime()) > t0) last(o);
      return;
    }
    else if(op == "current")
    {
      o.I(long(kf().getCurrentTime())).M_(kf().getCurrentEstimatedState());
      return;
    }
    else if(op == "predict")
    {
      Vector x = kf().updateStatePrediction();
      look(o);
      o.M_(x);
      return;
    }
    else if(op == "predictY")
    {
      Vector y = kf().updateStateAndMeasurementPrediction();
      look(o);
      o.M_(kf().getLastPrediction()).M_(y);
      return;
    }
    else if(op == "simMeas")
    {
      Vector y = kf().getSimulatedMeasurement(a.I());
      look(o);
      o.M_(y);
      try
      {
        Vector x = kf().getLastPrediction();
        o.M_(x);
      }
      catch(const vp::Refused &)
      {
      }
      try
      {
        Vector z = kf().getLastPredictedMeasurement();
        o.M_(z);
      }
      catch(const vp::Refused &)
      {
      }
      return;
    }
    else if(op == "last")
    {
      last(o);
      return;
    }
    else if(op == "fdA" || op == "fdC")
    {
      bool keep = a.B();
      Vector dx = a.V(nt);
      Matrix J = op == "fdA" ? Matrix(ekf->getAMatrixFD(dx)) : Matrix(ekf->getCMatrixFD(dx));
      if(keep)
      {
        if(op == "fdA")
          ekf->setA(J);
        else
          ekf->setC(J);
      }
      look(o);
      o.M_(J);
      return;
    }
    else if(op == "setM")
    {
      long w = a.I(), r = a.I(), c = a.I();
      // a list of rows cannot carry the column count of an empty matrix
      if(w >= 5 && a.r.empty() && r == (w == 5 ? n : m)) c = p;
      Matrix M = a.M(r, c);
      KalmanFilterBase & k = kf();
      if(w == 0) k.setA(M);
      if(w == 1) k.setC(M);
      if(w == 2) k.setQ(M);
      if(w == 3) k.setR(M);
      if(w == 4) k.setStateCovariance(M);
      if(w == 5) lin->setB(M);
      if(w == 6) lin->setD(M);
      return lookSet(o);
    }
    else if(op == "setFunctor")
    {
      if(a.I() == 1)
      {
        models.back()->fill(a);
        ekf->setFunctor(models.back().get());
      }
      else
        setModel(a);
    }
    else if(op == "copy")
    {
      long how = a.I();
      if(lin) copy(lin, how, LinearKalmanFilter(n + 1, m + 2, 1));
      if(ekf) copy(ekf, how, ExtendedKalmanFilter(n + 1, m + 2));
      return lookSet(o);
    }
    else if(op == "shapes")
      return shapes(a, o);
    else if(op == "clearFunctor")
      ekf->clearFunctor();
    else if(op == "setFlags")
    {
      bool x = a.B(), y = a.B();
      ekf->setDirectInputOutputFeedthrough(x);
      ekf->setDirectInputStateFeedthrough(y);
    }
    else if(op == "clearM")
    {
      long w = a.I();
      KalmanFilterBase & k = kf();
      if(w == 0) k.clearA();
      if(w == 1) k.clearC();
      if(w == 2) k.clearQ();
      if(w == 3) k.clearR();
      if(w == 4) k.clearStateCovariance();
      if(w == 5) lin->clearB();
      if(w == 6) lin->clearD();
      return lookSet(o);
    }
    else if(op == "clearData")
    {
      long w = a.I();
      KalmanFilterBase & k = kf();
      if(w == 0) k.clearStates();
      if(w == 1) k.clearMeasurements();
      if(w == 2) k.clearInputs();
      if(w == 3) k.clearInputsAndMeasurements();
      long r0 = ekf && ekf->getFunctor() ? models.back()->resets : 0;
      if(w == 4) k.reset();
      lookSet(o);
      if(w == 4) o.I(ekf && ekf->getFunctor() ? models.back()->resets - r0 : 0);
      return;
    }
    else if(op == "setSize")
    {
      long w = a.I(), v = a.I();
      bool same = a.B();
      KalmanFilterBase & k = kf();
      if(w == 0) k.setStateSize(v);
      if(w == 1) k.setMeasureSize(v);
      if(w == 2) k.setInputSize(v);
      if(w == 0) n = nt = v;
      if(w == 1) m = mt = v;
      if(w == 2) p = v;
      if(ekf && !same) ekf->clearFunctor();
      return lookSet(o);
    }
    else if(op == "tangentAndBack")
    {
      long w = a.I();
      KalmanFilterBase & k = kf();
      for(int i = 0; i < 2; ++i)
      {
        long v = a.I(), vt = a.I();
        if(w == 0) k.setStateSize(v, vt);
        if(w == 1) k.setMeasureSize(v, vt);
      }
      ekf->clearFunctor();
      return lookSet(o);
    }
    else if(op == "sizeAndBack")
    {
      long w = a.I(), v = a.I(), old = a.I();
      KalmanFilterBase & k = kf();
      for(long z : {v, old})
      {
        if(w == 0) k.setStateSize(z);
        if(w == 1) k.setMeasureSize(z);
        if(w == 2) k.setInputSize(z);
      }
      if(ekf) ekf->clearFunctor();
      return lookSet(o);
    }
    else if(op == "refill")
    {
      bool A = a.B(), C = a.B(), Q = a.B(), R = a.B(), P = a.B(), B = a.B(), X = a.B(), F = a.B();
      long t = a.I();
      KalmanFilterBase & k = kf();
      if(A) k.setA(a.M(nt, nt));
      if(C) k.setC(a.M(mt, nt));
      if(Q) k.setQ(a.M(nt, nt));
      if(R) k.setR(a.M(mt, mt));
      if(P) k.setStateCovariance(a.M(nt, nt));
      if(B) lin->setB(a.M(n, p));
      if(X) k.setState(a.V(n), t);
      if(F) setModel(a);
    }
    else
      throw std::runtime_error("harness: op " + op);
    look(o);
  }
};
VP_REPLAY_MAIN(Adapter)
