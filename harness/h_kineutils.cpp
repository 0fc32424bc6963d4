#include "replay.hpp"
#include "rothelp.hpp"
#include <state-observation/tools/miscellaneous-algorithms.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using vp::Args;
using vp::dist;
using vp::Out;
using vp::quatMat;
using vp::rodrigues;

static Vector4 co(const Quaternion & q) { return q.coeffs(); }
static Matrix3 aam(const AngleAxis & a) { return rodrigues(a.angle() * a.axis()); }

struct Adapter
{
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "rotvec")
    {
      bool uniq = a.B();
      Vector3 v = a.V3();
      Matrix3 m = kine::rotationVectorToRotationMatrix(v);
      AngleAxis aa = kine::rotationVectorToAngleAxis(v);
      Quaternion q = kine::rotationVectorToQuaternion(v);
      Vector3 r1 = kine::rotationMatrixToRotationVector(m), r2 = kine::quaternionToRotationVector(q),
              r3 = kine::quaternionToRotationVector(co(q));
      Vector reg = kine::regulateRotationVector(v);
      double pi = M_PI + 1e-9;
      o.I(std::abs(aa.axis().norm() - 1) < 1e-9).I(r1.norm() <= pi).I(r2.norm() <= pi).I(r3.norm() <= pi);
      o.M_(m).R(dist(aam(aa), m)).R(dist(quatMat(co(q)), m)).R(dist(rodrigues(r1), m)).R(dist(rodrigues(r2), m));
      o.R(dist(rodrigues(r3), m)).R(dist(rodrigues(reg), m));
      if(uniq)
        o.M_(r1);
      else
        o.M_(Vector3(Vector3::Zero()));
    }
    else if(op == "regulate")
    {
      long c = a.I();
      Vector3 v = a.V3();
      Vector r = kine::regulateRotationVector(v);
      o.I(c == 1 ? r.norm() <= M_PI + 1e-9 : r.norm() <= v.norm() + 1e-9);
      o.M_(rodrigues(r));
      o.M_(c == 0 ? Vector3(r) : Vector3(Vector3::Zero()));
    }
    else if(op == "rpy")
    {
      Vector3 v = a.V3();
      Matrix3 m = kine::rollPitchYawToRotationMatrix(v(0), v(1), v(2));
      o.M_(m);
      o.R(dist(kine::rollPitchYawToRotationMatrix(v), m));
      o.R(dist(quatMat(co(kine::rollPitchYawToQuaternion(v(0), v(1), v(2)))), m));
      o.R(dist(quatMat(co(kine::rollPitchYawToQuaternion(v))), m));
      Vector3 w;
      w.setConstant(7);
      Vector3 back = kine::rotationMatrixToRollPitchYaw(m), back2 = kine::rotationMatrixToRollPitchYaw(m, w);
      o.R(dist(back, w)).R(dist(back2, w));
      for(int k = 0; k < 2; ++k)
      {
        Vector3 x = k ? w : back;
        for(int i = 0; i < 3; ++i) // modulo a full turn
          if(std::abs(std::abs(x(i) - v(i)) - 2 * M_PI) < 1e-6) x(i) = v(i);
        o.M_(x);
      }
    }
    else if(op == "quatParts")
    {
      Quaternion q(Vector4(a.V(4)));
      o.R(kine::scalarComponent(q)).M_(kine::vectorComponent(q));
    }
    else if(op == "orthogonalize")
      o.M_(kine::orthogonalizeRotationMatrix(a.M3()));
    else if(op == "skew")
    {
      Vector3 v = a.V3();
      Matrix3 m = Matrix3::Constant(5), m2 = Matrix3::Constant(5);
      o.M_(kine::skewSymmetric(v));
      kine::skewSymmetric(v, m);
      o.M_(m);
      o.M_(kine::skewSymmetric2(v));
      kine::skewSymmetric2(v, m2);
      o.M_(m2);
    }
    else if(op == "homogeneous")
    {
      bool uniq = a.B();
      Vector6 v = a.V(6);
      Matrix4 m = kine::vector6ToHomogeneousMatrix(v);
      o.M_(m);
      Vector6 b = kine::homogeneousMatrixToVector6(m);
      o.M_(b.head<3>());
      if(uniq)
        o.M_(b.tail<3>());
      else
        o.M_(Vector3(Vector3::Zero()));
      o.M_(rodrigues(b.tail<3>()));
      o.M_(kine::invertHomoMatrix(m));
    }
    else if(op == "twoVectors")
    {
      Vector3 x = a.V3(), y = a.V3();
      o.M_(kine::twoVectorsToRotationMatrix(x, y));
    }
    else if(op == "pureYaw")
      o.I(kine::isPureYaw(a.M3()));
    else if(op == "invariants")
    {
      Matrix3 R = a.M3();
      Vector3 t = a.V3();
      Vector3 h = kine::getInvariantHorizontalVector(R), g = kine::getInvariantOrthogonalVector(R, t);
      o.I(h.norm() > 0).I(g.norm() > 0);
      h.normalize();
      g.normalize();
      // a tilt within rounding of the vertical leaves the direction free
      Vector3 Rt = R * t;
      bool fr = R.block<1, 2>(2, 0).norm() < 1e-7, fg = Rt.head<2>().norm() < 1e-7;
      o.R(h(2)).R(fr ? 0. : (R * h)(2)).R(g(2)).R(fg ? 0. : (R.transpose() * g).dot(t));
    }
    else if(op == "merge")
    {
      long kind = a.I();
      Vector3 t;
      Matrix3 r1;
      if(kind < 2)
        t = a.V3();
      else
        r1 = a.M3();
      Matrix3 r2 = a.M3();
      Vector3 v = a.V3();
      if(kind == 0) o.M_(kine::mergeTiltWithYaw(t, r2));
      if(kind == 1) o.M_(kine::mergeTiltWithYaw(t, r2, v));
      if(kind == 2) o.M_(kine::mergeRoll1Pitch1WithYaw2(r1, r2));
      if(kind == 3) o.M_(kine::mergeRoll1Pitch1WithYaw2(r1, r2, v));
    }
    else if(op == "mergeAgnostic")
    {
      long kind = a.I();
      if(kind == 0)
      {
        Vector3 t = a.V3();
        o.M_(kine::mergeTiltWithYawAxisAgnostic(t, a.M3()));
      }
      else
      {
        Matrix3 r1 = a.M3();
        o.M_(kine::mergeRoll1Pitch1WithYaw2AxisAgnostic(r1, a.M3()));
      }
    }
    else if(op == "yaw")
      angle(kine::rotationMatrixToYaw(a.M3()), o);
    else if(op == "angleOf")
    {
      long kind = a.I();
      Matrix3 r = a.M3();
      Vector3 ax = a.V3(), v = a.V3();
      if(kind == 0)
        angle(kine::rotationMatrixToYaw(r, Vector2(v.head<2>())), o);
      else
        angle(kine::rotationMatrixToAngle(r, ax, v), o);
    }
    else if(op == "yawAgnostic")
      angle(kine::rotationMatrixToYawAxisAgnostic(a.M3()), o);
    else if(op == "isRotation")
    {
      double p = a.R();
      o.I(kine::isRotationMatrix(a.M3(), p));
    }
    else if(op == "fixedPoint")
    {
      Matrix3 r = a.M3();
      Vector3 w = a.V3(), b = a.V3(), p = a.V3(), x, y, z;
      kine::fixedPointRotationToTranslation(r, w, b, p, x, y, z);
      o.M_(x).M_(y).M_(z);
    }
    else if(op == "finiteDiff")
    {
      double dt = a.R();
      Vector6 x = a.V(6), y = a.V(6);
      Quaternion q1(quat(x.tail<3>())), q2(quat(y.tail<3>()));
      o.M_(kine::derivateRotationFD(q1, q2, dt));
      o.M_(kine::derivateRotationFD(Vector3(x.tail<3>()), Vector3(y.tail<3>()), dt));
      o.M_(kine::derivateHomogeneousMatrixFD(hom(x), hom(y), dt));
      o.M_(kine::derivatePoseThetaUFD(x, y, dt));
    }
    else if(op == "jacobians")
    {
      Matrix3 j1, j2;
      kine::derivateRotationMultiplicative(a.V3(), j1, j2);
      o.M_(j1).M_(j2);
    }
    else if(op == "jacobianRtv")
    {
      Matrix3 r = a.M3();
      o.M_(kine::derivateRtvMultiplicative(r, a.V3()));
    }
    else if(op == "trajectory")
    {
      long n = a.I(), t0 = a.I();
      double dt = a.R();
      IndexedVectorArray po;
      for(long i = 0; i < n; ++i) po.setValue(a.V(6), t0 + i);
      IndexedVectorArray st = kine::reconstructStateTrajectory(po, dt);
      o.I(long(st.size())).I(st.getFirstIndex()).I(st.getNextIndex());
      for(long i = st.getFirstIndex(); i < st.getNextIndex(); ++i) o.M_(st[i]);
    }
    else if(op == "invertState")
    {
      Vector r = kine::invertState(a.V(18));
      o.M_(r.head(3)).M_(rodrigues(r.segment<3>(3))).M_(r.tail(12));
    }
    else if(op == "integrate")
    {
      long k = a.I();
      double dt = a.R();
      Vector3 p = a.V3(), v = a.V3(), ac = a.V3();
      Quaternion q(Vector4(a.V(4)));
      Vector3 w = a.V3(), b = a.V3();
      Matrix3 m = quatMat(co(q));
      const Vector3 cv = v, cw = w;
      if(k == 0) kine::integrateKinematics(p, cv, dt);
      if(k == 1) kine::integrateKinematics(p, v, ac, dt);
      if(k == 2) kine::integrateKinematics(m, cw, dt);
      if(k == 3) kine::integrateKinematics(q, cw, dt);
      if(k == 4) kine::integrateKinematics(m, w, b, dt);
      if(k == 5) kine::integrateKinematics(q, w, b, dt);
      if(k == 6) kine::integrateKinematics(p, cv, m, cw, dt);
      if(k == 7) kine::integrateKinematics(p, cv, q, cw, dt);
      if(k == 8) kine::integrateKinematics(p, v, ac, m, w, b, dt);
      if(k == 9) kine::integrateKinematics(p, v, ac, q, w, b, dt);
      if(k % 2 == 1) m = quatMat(co(q));
      if(k == 0) o.M_(p);
      if(k == 1) o.M_(p).M_(v);
      if(k == 2 || k == 3) o.M_(m);
      if(k == 4 || k == 5) o.M_(m).M_(w);
      if(k == 6 || k == 7) o.M_(p).M_(m);
      if(k == 8 || k == 9) o.M_(p).M_(v).M_(m).M_(w);
    }
    else if(op == "clamp")
    {
      int xi = int(a.I()), hi = int(a.I()), lo = int(a.I());
      double x = a.R(), t = a.R(), b = a.R(), l = a.R();
      o.I(tools::clampScalar(xi, hi, lo)).I(tools::signum(x)).I(tools::signum(xi));
      o.R(tools::clampScalar(x, t, b)).R(tools::clampScalar(x, l)).R(tools::square(x)).R(tools::derivate(x, t, l));
    }
    else if(op == "normalisation")
    {
      Vector3 v = a.V3();
      double n = -1;
      o.I(tools::checkIfNormalized(v)).I(tools::checkIfNormalized(v, n));
      o.R(n).M_(tools::normalizedLazy(v));
    }
    else if(op == "roots")
      o.R(tools::sqrt(a.R()));
    else if(op == "finiteTime")
    {
      long n = a.I();
      bool d = a.B();
      double kp = a.R(), kv = a.R();
      Vector x = a.V(n), xd = a.V(n);
      Vector r = d ? tools::finiteTimeAccControl(x, xd) : tools::finiteTimeAccControl(x, xd, kp, kv);
      o.M_(r);
      o.R(d ? tools::finiteTimeAccControl(x(0), xd(0)) : tools::finiteTimeAccControl(x(0), xd(0), kp, kv));
    }
    else if(op == "closeTo")
    {
      double x = a.R(), y = a.R(), p = a.R();
      o.I(isApprox(x, y, p)).I(isApproxAbs(x, y, p));
    }
    else if(op == "draws")
    {
      double lo = a.R(), hi = a.R();
      Vector3 b = a.V3();
      double u = tools::ProbabilityLawSimulation::getUniformScalar(lo, hi), an = kine::randomAngle();
      o.I(u >= lo && u <= hi).I(an >= -M_PI && an <= M_PI);
      o.M_(tools::ProbabilityLawSimulation::getGaussianVector<Vector3>(Matrix3(Matrix3::Zero()), b, 3, 1));
      o.R(tools::ProbabilityLawSimulation::getGaussianScalar(0, b(0)));
      o.M_(co(kine::zeroRotationQuaternion()));
    }
    else
      throw std::runtime_error("harness: op " + op);
  }
  static void angle(double x, Out & o)
  {
    o.I(std::abs(x) <= M_PI + 1e-9).R(std::cos(x)).R(std::sin(x));
  }
  static Vector4 quat(const Vector3 & v)
  {
    double n = v.norm();
    Vector4 q;
    q << (n > 1e-12 ? Vector3(v / n * std::sin(n / 2)) : Vector3(v / 2)), std::cos(n / 2);
    return q;
  }
  static Matrix4 hom(const Vector6 & v)
  {
    Matrix4 m = Matrix4::Identity();
    m.block<3, 3>(0, 0) = rodrigues(v.tail<3>());
    m.block<3, 1>(0, 3) = v.head<3>();
    return m;
  }
};
VP_REPLAY_MAIN(Adapter)
