#include "replay.hpp"
#include "rothelp.hpp"
#include <list>
#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
using namespace stateObservation;
using kine::Kinematics;
using vp::Args;
using vp::Out;

struct Obs : public KineticsObserver
{
  Obs(unsigned c, unsigned i) : KineticsObserver(c, i) {}
  using KineticsObserver::stateDynamics;
};

// order of the blocks: position, orientation, velocities; biases; unmodelled wrench; contacts
struct Adapter
{
  std::list<std::unique_ptr<Obs>> all;
  Obs * s = nullptr;
  unsigned nC = 0, nI = 0;

  static Kinematics kin(Args & a, long f, long how)
  {
    Kinematics k;
    if(f & 1) k.position = a.V3();
    if(f & 2)
    {
      Vector4 c = a.V(4);
      if(how == 0)
        k.orientation = Quaternion(c);
      else
        k.orientation = vp::quatMat(c);
    }
    if(f & 4) k.linVel = a.V3();
    if(f & 8) k.angVel = a.V3();
    if(f & 16) k.linAcc = a.V3();
    if(f & 32) k.angAcc = a.V3();
    return k;
  }
  static long mask(const Kinematics & k)
  {
    return (k.position.isSet() ? 1 : 0) + (k.orientation.isSet() ? 2 : 0) + (k.linVel.isSet() ? 4 : 0)
           + (k.angVel.isSet() ? 8 : 0) + (k.linAcc.isSet() ? 16 : 0) + (k.angAcc.isSet() ? 32 : 0);
  }
  static void vals(const Kinematics & k0, Out & o)
  {
    Kinematics k(k0);
    if(k.position.isSet()) o.M_(k.position());
    if(k.orientation.isSet()) o.M_(k.orientation.toMatrix3());
    if(k.linVel.isSet()) o.M_(k.linVel());
    if(k.angVel.isSet()) o.M_(k.angVel());
    if(k.linAcc.isSet()) o.M_(k.linAcc());
    if(k.angAcc.isSet()) o.M_(k.angAcc());
  }
  static Matrix cov(Args & a, long n)
  {
    double d = a.R();
    Vector v = a.V(n);
    Matrix m = d * Matrix::Identity(n, n) + v * v.transpose();
    return m;
  }
  bool on(unsigned i)
  {
    for(int j : s->getListOfContacts())
      if(unsigned(j) == i) return true;
    return false;
  }
  Index ci(unsigned i) { return on(i) ? s->contactIndex(i) : s->contactsIndex() + 13 * i; }
  Index cit(unsigned i) { return on(i) ? s->contactIndexTangent(i) : s->contactsIndexTangent() + 12 * i; }
  // blocks of the state vector in the order of the specification: (index, size)
  std::vector<std::pair<Index, Index>> blocks()
  {
    std::vector<std::pair<Index, Index>> b = {{s->posIndex(), 3}, {s->oriIndex(), 4}, {s->linVelIndex(), 3}, {s->angVelIndex(), 3}};
    for(unsigned i = 0; i < nI; ++i) b.push_back({s->gyroBiasIndex(i), 3});
    b.push_back({s->unmodeledForceIndex(), 3});
    b.push_back({s->unmodeledTorqueIndex(), 3});
    for(unsigned i = 0; i < nC; ++i)
      if(on(i))
      {
        b.push_back({s->contactPosIndex(i), 3});
        b.push_back({s->contactOriIndex(i), 4});
        b.push_back({s->contactForceIndex(i), 3});
        b.push_back({s->contactTorqueIndex(i), 3});
      }
      else
        b.push_back({ci(i), 13});
    return b;
  }
  std::vector<std::pair<Index, Index>> blocksT()
  {
    std::vector<std::pair<Index, Index>> b = {
        {s->posIndexTangent(), 3}, {s->oriIndexTangent(), 3}, {s->linVelIndexTangent(), 3}, {s->angVelIndexTangent(), 3}};
    for(unsigned i = 0; i < nI; ++i) b.push_back({s->gyroBiasIndexTangent(i), 3});
    b.push_back({s->unmodeledForceIndexTangent(), 3});
    b.push_back({s->unmodeledTorqueIndexTangent(), 3});
    for(unsigned i = 0; i < nC; ++i)
      if(on(i))
      {
        b.push_back({s->contactPosIndexTangent(i), 3});
        b.push_back({s->contactOriIndexTangent(i), 3});
        b.push_back({s->contactForceIndexTangent(i), 3});
        b.push_back({s->contactTorqueIndexTangent(i), 3});
      }
      else
        b.push_back({cit(i), 12});
    return b;
  }
  static bool partition(const std::vector<std::pair<Index, Index>> & b, Index n)
  {
    std::vector<int> c(size_t(n), 0);
    for(auto & p : b)
      for(Index j = 0; j < p.second; ++j)
      {
        if(p.first + j < 0 || p.first + j >= n) return false;
        ++c[size_t(p.first + j)];
      }
    for(int x : c)
      if(x != 1) return false;
    return true;
  }
  Index nt() { return 18 + 3 * nI + 12 * nC; }
  // argument in the order of the specification
  Vector state(Args & a)
  {
    Vector x(s->getStateSize());
    for(auto & b : blocks())
      for(Index j = 0; j < b.second; ++j) x(b.first + j) = a.R();
    return x;
  }
  Vector tangent(Args & a)
  {
    Vector x(nt());
    for(auto & b : blocksT())
      for(Index j = 0; j < b.second; ++j) x(b.first + j) = a.R();
    return x;
  }
  Vector fromTangent(const Vector & t)
  {
    if(t.size() != nt()) throw std::runtime_error("tangent size");
    Vector x(nt());
    Index k = 0;
    for(auto & b : blocksT())
      for(Index j = 0; j < b.second; ++j) x(k++) = t(b.first + j);
    return x;
  }
  Vector permTangent(const Vector & t)
  {
    Vector x(nt());
    Index k = 0;
    for(auto & b : blocksT())
      for(Index j = 0; j < b.second; ++j) x(b.first + j) = t(k++);
    return x;
  }
  // covariance of the whole state, its vector given in the order of the specification
  Matrix covT(Args & a)
  {
    double d = a.R();
    Vector v = tangent(a);
    Matrix m = d * Matrix::Identity(nt(), nt()) + v * v.transpose();
    return m;
  }
  void seen(const Vector & x, Out & o)
  {
    if(x.size() != s->getStateSize()) throw std::runtime_error("state size");
    o.M_(x.segment(s->posIndex(), 3)).M_(vp::quatMat(x.segment<4>(s->oriIndex())));
    o.M_(x.segment(s->linVelIndex(), 3)).M_(x.segment(s->angVelIndex(), 3));
    for(unsigned i = 0; i < nI; ++i) o.M_(x.segment(s->gyroBiasIndex(i), 3));
    o.M_(x.segment(s->unmodeledWrenchIndex(), 6));
    for(unsigned i = 0; i < nC; ++i)
      if(on(i))
      {
        o.M_(x.segment(s->contactPosIndex(i), 3)).M_(vp::quatMat(x.segment<4>(s->contactOriIndex(i))));
        o.M_(x.segment(s->contactWrenchIndex(i), 6));
      }
  }
  // the last state, read through the specific accessors
  void seenState(Out & o)
  {
    const Vector & x = s->getCurrentStateVector();
    Out v;
    seen(x, v);
    // the accessors of the wrenches and of the contact poses report the same values
    Out w;
    Vector6 u = s->getUnmodeledWrench();
    w.M_(x.segment(s->posIndex(), 3)).M_(vp::quatMat(x.segment<4>(s->oriIndex())));
    w.M_(x.segment(s->linVelIndex(), 3)).M_(x.segment(s->angVelIndex(), 3));
    for(unsigned i = 0; i < nI; ++i) w.M_(x.segment(s->gyroBiasIndex(i), 3));
    w.M_(u);
    for(unsigned i = 0; i < nC; ++i)
      if(on(i))
      {
        Kinematics c = s->getContactPosition(int(i));
        w.M_(c.position()).M_(c.orientation.toMatrix3()).M_(s->getContactWrench(int(i)));
      }
    if(v.r.size() != w.r.size()) throw std::runtime_error("accessors");
    for(size_t j = 0; j < v.r.size(); ++j)
      if(!(std::abs(v.r[j] - w.r[j]) <= 1e-9 * (1 + std::abs(v.r[j])))) w.r[j] = 1e9;
    o.r.insert(o.r.end(), w.r.begin(), w.r.end());
  }
  void look(Out & o)
  {
    o.I(s->getNumberOfContacts()).I(s->getMeasurementSize()).I(mask(s->getKinematics())).I(s->getStateVectorTimeIndex());
    for(int j : s->getListOfContacts()) o.I(j);
    vals(s->getKinematics(), o);
    seenState(o);
  }
  void seenY(const Vector & y, Out & o)
  {
    Index n = y.size();
    if(n % 6 == 1)
      o.M_(y.head(n - 4)).M_(vp::quatMat(y.tail<4>()));
    else
      o.M_(y);
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      nC = unsigned(a.I());
      nI = unsigned(a.I());
      bool numeric = a.B();
      all.emplace_back(new Obs(nC, nI));
      s = all.back().get();
      s->setStateVector(state(a));
      if(numeric)
      {
        s->setSamplingTime(a.R());
        s->setMass(a.R());
        s->setStateCovarianceMat(covT(a));
        s->setProcessNoiseCovarianceMat(covT(a));
        Matrix3 ca = cov(a, 3), cg = cov(a, 3);
        s->setIMUDefaultCovarianceMatrix(ca, cg);
        s->setContactWrenchSensorDefaultCovarianceMatrix(cov(a, 6));
        s->setAbsolutePoseSensorDefaultCovarianceMatrix(cov(a, 6));
        s->setFiniteDifferenceStep(tangent(a));
      }
    }
    else if(op == "dt")
    {
      double d = a.R();
      s->setSamplingTime(d);
      if(s->getSamplingTime() != d) throw std::runtime_error("sampling time");
    }
    else if(op == "mass")
      s->setMass(a.R());
    else if(op == "flag")
    {
      long w = a.I();
      bool b = a.B();
      if(w == 0) s->setWithUnmodeledWrench(b);
      if(w == 1) s->setWithGyroBias(b);
      if(w == 2) s->setWithAccelerationEstimation(b);
      if(w == 3) s->useFiniteDifferencesJacobians(b);
    }
    else if(op == "dx")
      s->setFiniteDifferenceStep(tangent(a));
    else if(op == "copy")
    {
      // the copy goes on alone: whatever happens to the original has no effect on it
      Obs * old = s;
      all.emplace_back(new Obs(*old));
      s = all.back().get();
      old->clearContacts();
      old->setMass(1e6);
      old->setSamplingTime(1e3);
      old->setAdditionalWrench(Vector3::Constant(1e6), Vector3::Constant(-1e6));
      Vector x = old->getCurrentStateVector() * 2;
      old->setStateVector(x);
    }
    else if(op == "setX")
    {
      bool r = a.B();
      s->setStateVector(state(a), r);
    }
    else if(op == "setKine")
    {
      bool rf = a.B(), rc = a.B();
      long f = a.I(), how = a.I();
      s->setStateKinematics(kin(a, f, how), rf, rc);
    }
    else if(op == "setBias")
    {
      unsigned i = unsigned(a.I());
      bool r = a.B();
      s->setGyroBias(a.V3(), i, r);
    }
    else if(op == "setUnm")
    {
      bool r = a.B();
      s->setStateUnmodeledWrench(a.V(6), r);
    }
    else if(op == "setPQ")
    {
      long w = a.I();
      if(w == 0)
        s->setStateCovarianceMat(covT(a));
      else
        s->setProcessNoiseCovarianceMat(covT(a));
    }
    else if(op == "setCov")
    {
      long what = a.I(), w = a.I();
      int i = int(a.I());
      if(what == 0)
      {
        Matrix c = cov(a, 12);
        if(w == 0) s->setKinematicsStateCovariance(c);
        if(w == 1) s->setKinematicsProcessCovariance(c);
        if(w == 2) s->setKinematicsInitCovarianceDefault(c);
      }
      if(what == 1)
      {
        Matrix3 c = cov(a, 3);
        if(w == 0) s->setGyroBiasStateCovariance(c, unsigned(i));
        if(w == 1) s->setGyroBiasProcessCovariance(c, unsigned(i));
        if(w == 2) s->setGyroBiasInitCovarianceDefault(c);
      }
      if(what == 2)
      {
        Matrix6 c = cov(a, 6);
        if(w == 0) s->setUnmodeledWrenchStateCovMat(c);
        if(w == 1) s->setUnmodeledWrenchProcessCovMat(c);
        if(w == 2) s->setUnmodeledWrenchInitCovMatDefault(c);
      }
      if(what == 3)
      {
        Matrix12 c = cov(a, 12);
        if(w == 0) s->setContactStateCovMat(i, c);
        if(w == 1) s->setContactProcessCovMat(i, c);
        if(w == 2) s->setContactInitCovMatDefault(c);
      }
    }
    else if(op == "resetCov")
    {
      long what = a.I(), w = a.I();
      unsigned i = unsigned(a.I());
      if(w == 0)
      {
        if(what == 0) s->resetStateKinematicsCovMat();
        if(what == 1) s->resetStateGyroBiasCovMat(i);
        if(what == 2) s->resetStateUnmodeledWrenchCovMat();
        if(what == 3) s->resetStateContactCovMat(i);
        if(what == 4) s->resetStateContactsCovMat();
        if(what == 5) s->resetStateCovarianceMat();
      }
      else
      {
        if(what == 0) s->resetProcessKinematicsCovMat();
        if(what == 1) s->resetProcessGyroBiasCovMat(i);
        if(what == 2) s->resetProcessUnmodeledWrenchCovMat();
        if(what == 3) s->resetProcessContactCovMat(i);
        if(what == 4) s->resetProcessContactsCovMat();
        if(what == 5) s->resetProcessCovarianceMat();
      }
    }
    else if(op == "askCov")
    {
      long w = a.I();
      Vector r = tangent(a);
      Matrix m = w == 0 ? s->getStateCovarianceMat() : Matrix(s->getEKF().getQ());
      o.M_(fromTangent(m * r));
      return;
    }
    else if(op == "imu")
    {
      int num = int(a.I());
      bool expl = a.B();
      long f = a.I(), how = a.I();
      Vector3 acc = a.V3(), gyr = a.V3();
      Matrix3 ca, cg;
      if(expl)
      {
        ca = cov(a, 3);
        cg = cov(a, 3);
      }
      Kinematics k = kin(a, f, how);
      int ret;
      if(expl)
        ret = num < 0 ? s->setIMU(acc, gyr, ca, cg, k) : s->setIMU(acc, gyr, ca, cg, k, num);
      else
        ret = num < 0 ? s->setIMU(acc, gyr, k) : s->setIMU(acc, gyr, k, num);
      o.I(ret);
    }
    else if(op == "defaults")
    {
      long w = a.I();
      if(w == 0)
      {
        Matrix3 ca = cov(a, 3), cg = cov(a, 3);
        s->setIMUDefaultCovarianceMatrix(ca, cg);
      }
      if(w == 1) s->setContactWrenchSensorDefaultCovarianceMatrix(cov(a, 6));
      if(w == 2) s->setAbsolutePoseSensorDefaultCovarianceMatrix(cov(a, 6));
      if(w == 3) s->resetSensorsDefaultCovMat();
    }
    else if(op == "pose")
    {
      bool expl = a.B();
      long f = a.I(), how = a.I();
      Matrix6 c;
      if(expl) c = cov(a, 6);
      Kinematics k = kin(a, f, how);
      if(expl)
        s->setAbsolutePoseSensor(k, c);
      else
        s->setAbsolutePoseSensor(k);
    }
    else if(op == "resetInputs")
      s->resetInputs();
    else if(op == "add")
    {
      int num = int(a.I());
      bool expl = a.B();
      long g = a.I(), how = a.I();
      size_t left = a.r.size();
      Kinematics k = kin(a, left == 3 ? 1 : left == 4 ? 2 : 3, how);
      Matrix12 p, q;
      if(expl)
      {
        p = cov(a, 12);
        q = cov(a, 12);
      }
      Matrix3 m[4];
      for(int j = 0; j < 4; ++j)
      {
        if((g >> j) & 1)
          m[j] = a.M3();
        else
          m[j].setZero();
      }
      o.I(expl ? s->addContact(k, p, q, num, m[0], m[1], m[2], m[3]) : s->addContact(k, num, m[0], m[1], m[2], m[3]));
    }
    else if(op == "remove")
      s->removeContact(int(a.I()));
    else if(op == "clear")
      s->clearContacts();
    else if(op == "inactive")
    {
      long w = a.I();
      int i = int(a.I());
      Kinematics k;
      k.setZero<Quaternion>(Kinematics::Flags::Byte(15));
      if(w == 0) s->removeContact(i);
      if(w == 1) s->updateContactWithNoSensor(k, unsigned(i));
      if(w == 2) s->updateContactWithWrenchSensor(Vector6::Ones(), k, unsigned(i));
      if(w == 3) s->setContactStateCovMat(i, Matrix12::Identity());
      if(w == 4) s->setContactProcessCovMat(i, Matrix12::Identity());
      if(w == 5) s->resetStateContactCovMat(unsigned(i));
      if(w == 6) s->resetProcessContactCovMat(unsigned(i));
      if(w == 7) s->getContactWrench(i);
      if(w == 8) s->getContactPosition(i);
    }
    else if(op == "badBias")
    {
      long w = a.I();
      unsigned i = unsigned(a.I());
      if(w == 0) s->setGyroBias(Vector3::Ones(), i);
      if(w == 1) s->setGyroBiasStateCovariance(Matrix3::Identity(), i);
      if(w == 2) s->setGyroBiasProcessCovariance(Matrix3::Identity(), i);
      if(w == 3) s->resetStateGyroBiasCovMat(i);
      if(w == 4) s->resetProcessGyroBiasCovMat(i);
    }
    else if(op == "touch")
    {
      unsigned i = unsigned(a.I());
      long mode = a.I(), f = a.I(), how = a.I();
      Vector6 w;
      if(mode > 0) w = a.V(6);
      Matrix6 c;
      if(mode == 2) c = cov(a, 6);
      Kinematics k = kin(a, f, how);
      touch(i, mode, w, c, k);
    }
    else if(op == "touchAll")
    {
      for(int i : s->getListOfContacts())
      {
        long mode = a.I();
        Vector6 w = a.V(6);
        Matrix6 c = cov(a, 6);
        Kinematics k = kin(a, 15, 0);
        touch(unsigned(i), mode, w, c, k);
      }
    }
    else if(op == "com")
    {
      long n = a.I();
      Vector3 x = a.V3();
      if(n == 1) s->setCenterOfMass(x);
      if(n > 1)
      {
        Vector3 y = a.V3();
        if(n == 2)
          s->setCenterOfMass(x, y);
        else
        {
          Vector3 z = a.V3();
          s->setCenterOfMass(x, y, z);
        }
      }
    }
    else if(op == "inertia")
    {
      long n = a.I(), v = a.I();
      if(v == 1)
      {
        Vector6 x = a.V(6);
        if(n == 1)
          s->setInertiaMatrix(x);
        else
        {
          Vector6 y = a.V(6);
          s->setInertiaMatrix(x, y);
        }
      }
      else
      {
        Matrix3 x = a.M3();
        if(n == 1)
          s->setInertiaMatrix(x);
        else
        {
          Matrix3 y = a.M3();
          s->setInertiaMatrix(x, y);
        }
      }
    }
    else if(op == "momentum")
    {
      long n = a.I();
      Vector3 x = a.V3();
      if(n == 1)
        s->setAngularMomentum(x);
      else
      {
        Vector3 y = a.V3();
        s->setAngularMomentum(x, y);
      }
    }
    else if(op == "external")
    {
      Vector3 f = a.V3(), t = a.V3();
      s->setAdditionalWrench(f, t);
    }
    else if(op == "layout")
    {
      Index n = s->getStateSize();
      bool ok = partition(blocks(), n) && partition(blocksT(), nt()) && s->getStateCovarianceMat().rows() == nt();
      ok = ok && s->kineIndex() == s->posIndex() && s->unmodeledWrenchIndex() == s->unmodeledForceIndex();
      ok = ok && s->kineIndexTangent() == s->posIndexTangent()
           && s->unmodeledWrenchIndexTangent() == s->unmodeledForceIndexTangent();
      for(int j : s->getListOfContacts())
      {
        unsigned i = unsigned(j);
        ok = ok && Index(s->contactIndex(i)) == Index(s->contactsIndex()) + 13 * j
             && Index(s->contactIndexTangent(i)) == Index(s->contactsIndexTangent()) + 12 * j;
        ok = ok && s->contactKineIndex(i) == s->contactPosIndex(i) && s->contactWrenchIndex(i) == s->contactForceIndex(i);
        ok = ok && s->contactKineIndexTangent(i) == s->contactPosIndexTangent(i)
             && s->contactWrenchIndexTangent(i) == s->contactForceIndexTangent(i);
      }
      o.I(n).I(ok ? 1 : 0);
      return;
    }
    else if(op == "meas")
    {
      Vector y = s->getMeasurementVector();
      o.I(y.size());
      seenY(y, o);
      return;
    }
    else if(op == "kinOf")
    {
      long f = a.I(), how = a.I();
      Kinematics k = s->getKinematicsOf(kin(a, f, how));
      o.I(mask(k));
      vals(k, o);
      return;
    }
    else if(op == "sum")
    {
      Vector x = state(a), t = tangent(a), y;
      s->stateSum(x, t, y);
      Vector z = s->stateSum(x, t);
      if(!(vp::dist(y, z) == 0)) throw std::runtime_error("sums differ");
      seen(y, o);
      return;
    }
    else if(op == "difference")
    {
      Vector x = state(a), y = state(a), d;
      s->stateDifference(x, y, d);
      Vector e = s->stateDifference(x, y);
      if(!(vp::dist(d, e) == 0)) throw std::runtime_error("differences differ");
      o.M_(fromTangent(d));
      return;
    }
    else if(op == "predict")
    {
      Vector x = state(a);
      seen(s->stateDynamics(x, Vector(), 0), o);
      return;
    }
    else if(op == "accel")
    {
      Kinematics k = s->estimateAccelerations();
      Out x, y;
      vals(k, x);
      vals(s->getKinematics(), y);
      if(x.r != y.r) throw std::runtime_error("kinematics differ");
    }
    else if(op == "idle")
    {
      Vector x = s->getCurrentStateVector();
      Vector y = s->update();
      Vector z = s->update();
      if(vp::dist(x, y) != 0 || vp::dist(x, z) != 0) throw std::runtime_error("estimate changed");
    }
    else if(op == "update")
      s->update();
    else if(op == "advance")
    {
      Index mt = a.I();
      s->setStateCovarianceMat(Matrix::Identity(nt(), nt()));
      s->setProcessNoiseCovarianceMat(Matrix::Identity(nt(), nt()));
      Vector y = s->getMeasurementVector();
      Index size = s->getMeasurementSize();
      bool pose = size % 6 == 1;
      Vector x0 = s->update();
      Matrix r = s->getEKF().getR();
      Vector x = state(a);
      Matrix p = covT(a), q = covT(a);
      s->setStateVector(x, false);
      s->setStateCovarianceMat(p);
      s->setProcessNoiseCovarianceMat(q);
      Vector v = a.V(mt);
      if(r.rows() != mt) throw std::runtime_error("size of the measurement covariance");
      look(o);
      o.I(size);
      seenY(y, o);
      o.M_(r * v);
      (void)pose;
      return;
    }
    else if(op == "estim")
    {
      Vector x = s->update();
      if(vp::dist(x, s->getCurrentStateVector()) != 0) throw std::runtime_error("state differs from the one returned");
      Vector r = tangent(a);
      look(o);
      seenY(s->getEKF().getLastPredictedMeasurement(), o);
      o.M_(fromTangent(s->getStateCovarianceMat() * r));
      return;
    }
    else if(op == "nothing")
      return;
    else
      throw std::runtime_error("harness: op " + op);
    look(o);
  }
  void touch(unsigned i, long mode, const Vector6 & w, const Matrix6 & c, const Kinematics & k)
  {
    if(mode == 0) s->updateContactWithNoSensor(k, i);
    if(mode == 1) s->updateContactWithWrenchSensor(w, k, i);
    if(mode == 2) s->updateContactWithWrenchSensor(w, c, k, i);
  }
};
VP_REPLAY_MAIN(Adapter)
