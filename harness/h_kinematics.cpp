#include "replay.hpp"
#include "rothelp.hpp"
#include <state-observation/tools/rigid-body-kinematics.hpp>
using namespace stateObservation;
using kine::Kinematics;
using kine::Orientation;
using vp::Args;
using vp::Out;

struct Adapter
{
  std::unique_ptr<Kinematics> s[3];

  static void setOri(Orientation & o, const Vector4 & c, long how)
  {
    Quaternion q(c);
    Matrix3 m = vp::quatMat(c);
    if(how == 0) o = q;
    if(how == 1) o = m;
    if(how == 2) o.setValue(q, m);
    if(how == 3)
    {
      o = m;
      o.synchronize();
    }
  }
  static void fill(Kinematics & k, Args & a, long f, long how)
  {
    if(f & 1) k.position = a.V3();
    if(f & 2) setOri(k.orientation, a.V(4), how);
    if(f & 4) k.linVel = a.V3();
    if(f & 8) k.angVel = a.V3();
    if(f & 16) k.linAcc = a.V3();
    if(f & 32) k.angAcc = a.V3();
  }
  static void lay(const Vector & v, long f, Out & o)
  {
    long p = 0;
    auto three = [&](long b) {
      if(f & b)
      {
        if(p + 3 > v.size()) throw std::runtime_error("vector too short");
        o.M_(v.segment(p, 3));
        p += 3;
      }
    };
    three(1);
    if(f & 2)
    {
      if(p + 4 > v.size()) throw std::runtime_error("vector too short");
      o.M_(vp::quatMat(v.segment(p, 4)));
      p += 4;
    }
    three(4);
    three(8);
    three(16);
    three(32);
    if(p != v.size()) throw std::runtime_error("vector too long");
  }
  static long mask(const Kinematics & k)
  {
    return (k.position.isSet() ? 1 : 0) + (k.orientation.isSet() ? 2 : 0) + (k.linVel.isSet() ? 4 : 0)
           + (k.angVel.isSet() ? 8 : 0) + (k.linAcc.isSet() ? 16 : 0) + (k.angAcc.isSet() ? 32 : 0);
  }
  static void look(const Kinematics & k, Out & o)
  {
    if(k.position.isSet()) o.M_(k.position());
    if(k.orientation.isSet())
    {
      Orientation x(k.orientation), y(k.orientation);
      Matrix3 m = x.toMatrix3();
      if(vp::dist(vp::quatMat(y.toVector4()), m) > 1e-8) m.setConstant(1e9); // representations disagree
      o.M_(m);
    }
    if(k.linVel.isSet()) o.M_(k.linVel());
    if(k.angVel.isSet()) o.M_(k.angVel());
    if(k.linAcc.isSet()) o.M_(k.linAcc());
    if(k.angAcc.isSet()) o.M_(k.angAcc());
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
      for(auto & x : s) x.reset(new Kinematics);
    else if(op == "fill")
    {
      long i = a.I(), f = a.I(), how = a.I();
      s[i].reset(new Kinematics);
      fill(*s[i], a, f, how);
    }
    else if(op == "put")
    {
      long i = a.I(), f = a.I(), how = a.I();
      fill(*s[i], a, f, how);
    }
    else if(op == "drop")
    {
      Kinematics & k = *s[a.I()];
      long f = a.I();
      if(f & 1) k.position.reset();
      if(f & 2) k.orientation.reset();
      if(f & 4) k.linVel.reset();
      if(f & 8) k.angVel.reset();
      if(f & 16) k.linAcc.reset();
      if(f & 32) k.angAcc.reset();
    }
    else if(op == "reset")
      s[a.I()]->reset();
    else if(op == "setZero")
    {
      Kinematics & k = *s[a.I()];
      Kinematics::Flags::Byte f = static_cast<unsigned char>(a.I());
      long how = a.I();
      if(how == 0) k.setZero(f);
      if(how == 1) k.setZero<Quaternion>(f);
      if(how == 2) k.setZero<Matrix3>(f);
    }
    else if(op == "copy")
    {
      long i = a.I(), j = a.I(), how = a.I();
      if(how == 0)
        s[i].reset(new Kinematics(*s[j]));
      else
        *s[i] = *s[j];
    }
    else if(op == "fromVector")
    {
      long i = a.I();
      Kinematics::Flags::Byte f = static_cast<unsigned char>(a.I());
      long how = a.I();
      Vector v = a.V(long(a.r.size()));
      if(how == 0)
        s[i].reset(new Kinematics(v, f));
      else
        s[i]->fromVector(v, f);
    }
    else if(op == "toVector")
    {
      long i = a.I(), f = a.I();
      Vector v = s[i]->toVector(static_cast<unsigned char>(f));
      lay(v, f, o);
      return;
    }
    else if(op == "toVectorAll")
    {
      long i = a.I();
      Vector v = s[i]->toVector();
      lay(v, mask(*s[i]), o);
      return;
    }
    else if(op == "roundTrip")
    {
      long i = a.I(), j = a.I();
      Kinematics::Flags::Byte f = static_cast<unsigned char>(a.I());
      Vector v = s[j]->toVector(f);
      s[i]->fromVector(v, f);
    }
    else if(op == "product")
    {
      long i = a.I(), j = a.I(), k = a.I(), how = a.I();
      if(how == 0)
        *s[i] = (*s[j]) * (*s[k]);
      else if(how == 1)
        s[i].reset(new Kinematics(*s[j], *s[k]));
      else
        s[i]->setToProductNoAlias(*s[j], *s[k]);
    }
    else if(op == "inverse")
    {
      long i = a.I(), j = a.I();
      *s[i] = s[j]->getInverse();
    }
    else if(op == "integrate")
    {
      long i = a.I();
      s[i]->integrate(a.R());
    }
    else if(op == "update")
    {
      long i = a.I(), j = a.I();
      Kinematics::Flags::Byte f = static_cast<unsigned char>(a.I());
      s[i]->update(*s[j], a.R(), f);
    }
    else if(op == "updateFrom")
    {
      long i = a.I();
      Kinematics::Flags::Byte f = static_cast<unsigned char>(a.I());
      long nf = a.I(), how = a.I();
      double dt = a.R();
      Kinematics n;
      fill(n, a, nf, how);
      s[i]->update(n, dt, f);
    }
    else
      throw std::runtime_error("harness: op " + op);
    for(auto & x : s) o.I(mask(*x));
    for(auto & x : s) look(*x, o);
  }
};
VP_REPLAY_MAIN(Adapter)
