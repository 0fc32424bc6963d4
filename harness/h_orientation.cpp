#include "replay.hpp"
#include "rothelp.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using kine::Orientation;
using vp::Args;
using vp::dist;
using vp::Out;

struct Adapter
{
  std::unique_ptr<Orientation> s[3];

  void lookOne(const Orientation & src, bool rpy, Out & o)
  {
    // one copy per representation: reading one must not depend on another
    Orientation a(src), b(src), c(src), d(src), e(src);
    Matrix3 m = a.toMatrix3();
    o.M_(m);
    Vector4 q = b.toVector4();
    o.R(dist(vp::quatMat(q), m));
    Vector3 rv = c.toRotationVector();
    o.R(dist(vp::rodrigues(rv), m));
    AngleAxis aa = d.toAngleAxis();
    o.R(dist(vp::rodrigues(aa.angle() * aa.axis()), m));
    o.R(rpy ? dist(vp::rpyMat(e.toRollPitchYaw()), m) : 0.);
    o.R(q.squaredNorm());
    o.R(rv.norm());
    o.R(aa.angle());
  }
  static void diffR(const Matrix3 & m, Out & o)
  {
    o.R(dist(m * m.transpose(), Matrix3::Identity()));
    o.R(m.determinant() - 1);
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    bool rpy[3];
    for(auto & x : rpy) x = a.B();
    if(op == "new")
    {
      s[0].reset(new Orientation());
      s[1].reset(new Orientation(true));
      s[2].reset(new Orientation());
    }
    else if(op == "rotvec")
    {
      long i = a.I(), how = a.I();
      Vector3 v = a.V3();
      if(how == 0)
        s[i].reset(new Orientation(v));
      else
        *s[i] = v;
    }
    else if(op == "quat")
    {
      long i = a.I(), how = a.I();
      Vector4 c = a.V(4);
      Quaternion q(c);
      if(how == 0)
        s[i].reset(new Orientation(q));
      else if(how == 1)
        *s[i] = q;
      else
        s[i]->fromVector4(c);
    }
    else if(op == "mat")
    {
      long i = a.I(), how = a.I();
      Matrix3 m = a.M3();
      if(how == 0)
        s[i].reset(new Orientation(m));
      else
        *s[i] = m;
    }
    else if(op == "both")
    {
      long i = a.I(), how = a.I();
      Vector4 c = a.V(4);
      Quaternion q(c);
      Matrix3 m = a.M3();
      if(how == 0)
        s[i].reset(new Orientation(q, m));
      else
        s[i]->setValue(q, m);
    }
    else if(op == "aa")
    {
      long i = a.I(), how = a.I();
      double an = a.R();
      AngleAxis x(an, a.V3());
      if(how == 0)
        s[i].reset(new Orientation(x));
      else
        *s[i] = x;
    }
    else if(op == "rpy")
    {
      long i = a.I();
      Vector3 v = a.V3();
      s[i].reset(new Orientation(v(0), v(1), v(2)));
    }
    else if(op == "zero")
    {
      long i = a.I(), how = a.I();
      if(how == 0) s[i]->setZeroRotation();
      if(how == 1) s[i]->setZeroRotation<Quaternion>();
      if(how == 2) s[i]->setZeroRotation<Matrix3>();
      if(how == 3) *s[i] = Orientation::zeroRotation();
    }
    else if(op == "copy")
    {
      long i = a.I(), j = a.I(), how = a.I();
      if(how == 0)
        s[i].reset(new Orientation(*s[j]));
      else
        *s[i] = *s[j];
    }
    else if(op == "product")
    {
      long i = a.I(), j = a.I(), k = a.I(), how = a.I();
      if(how == 0)
        *s[i] = (*s[j]) * (*s[k]);
      else if(how == 1)
        s[i].reset(new Orientation(*s[j], *s[k]));
      else
        s[i]->setToProductNoAlias(*s[j], *s[k]);
    }
    else if(op == "inverse")
    {
      long i = a.I(), j = a.I();
      *s[i] = s[j]->inverse();
    }
    else if(op == "integrate")
    {
      long i = a.I();
      s[i]->integrate(a.V3());
    }
    else if(op == "integDiff")
    {
      Orientation x(*s[a.I()]);
      Orientation y(x);
      y.integrate(a.V3());
      o.M_(x.differentiate(y));
      return;
    }
    else if(op == "differentiate")
    {
      long i = a.I(), j = a.I();
      Vector3 v = s[i]->differentiate(*s[j]);
      if(a.B())
        o.M_(v);
      else
        o.M_(vp::rodrigues(v)).R(v.norm());
      return;
    }
    else if(op == "apply")
    {
      long i = a.I();
      o.M_(Vector3((*s[i]) * a.V3()));
      return;
    }
    else if(op == "read")
    {
      const Orientation & x = *s[a.I()];
      switch(a.I())
      {
        case 0:
          o.M_(x.toMatrix3());
          break;
        case 1:
          o.M_(vp::quatMat(x.toQuaternion().coeffs()));
          break;
        case 2:
          o.M_(vp::quatMat(x.toVector4()));
          break;
        case 3:
          o.M_(vp::rodrigues(x.toRotationVector()));
          break;
        case 4:
          o.M_(vp::rpyMat(x.toRollPitchYaw()));
          break;
        case 5:
        {
          AngleAxis aa = x.toAngleAxis();
          o.M_(vp::rodrigues(aa.angle() * aa.axis()));
          break;
        }
        case 6:
        {
          const Matrix3 & m = x;
          o.M_(m);
          break;
        }
        default:
        {
          const Quaternion & q = x;
          o.M_(vp::quatMat(q.coeffs()));
        }
      }
      return;
    }
    else if(op == "sync")
      s[a.I()]->synchronize();
    else if(op == "reset")
      s[a.I()]->reset();
    else if(op == "random")
    {
      long how = a.I();
      Orientation x;
      if(how == 0)
        x = Orientation::randomRotation();
      else if(how == 1)
      {
        x = Matrix3(vp::rodrigues(Vector3(1, 2, 3)));
        x.setRandom();
      }
      else
        x = kine::randomRotationQuaternion();
      o.I(x.isSet());
      diffR(x.toMatrix3(), o);
      o.R(dist(vp::quatMat(x.toVector4()), x.toMatrix3()));
      return;
    }
    else
      throw std::runtime_error("harness: op " + op);
    for(auto & x : s) o.I(x->isSet());
    for(int k = 0; k < 3; ++k)
      if(s[k]->isSet()) lookOne(*s[k], rpy[k], o);
  }
};
VP_REPLAY_MAIN(Adapter)
