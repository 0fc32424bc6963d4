#include "replay.hpp"
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
using namespace stateObservation;
using vp::Args;
using vp::Out;

struct Adapter
{
  std::unique_ptr<UnidimLipmDcmEstimator> u;
  std::unique_ptr<LipmDcmEstimator> p;

  static Vector2 V2(Args & a)
  {
    double x = a.R(), y = a.R();
    return Vector2(x, y);
  }
  static Matrix2 M2(Args & a)
  {
    Matrix2 m;
    m(0, 0) = a.R();
    m(0, 1) = a.R();
    m(1, 0) = a.R();
    m(1, 1) = a.R();
    return m;
  }
  void look(Out & o)
  {
    if(u)
    {
      if(!u->getFilter().stateIsSet())
      {
        o.I(0);
        return;
      }
      o.I(1).R(u->getUnbiasedDCM()).R(u->getBias());
      const UnidimLipmDcmEstimator & c = *u;
      o.M_(c.getFilter().getStateCovariance());
    }
    else
    {
      if(!p->getFilter().stateIsSet())
      {
        o.I(0);
        return;
      }
      const LipmDcmEstimator & c = *p;
      o.I(1).M_(c.getUnbiasedDCM()).M_(c.getBias()).M_(c.getLocalBias()).M_(c.getFilter().getStateCovariance());
      o.R(c.getLipmNaturalFrequency());
    }
  }
  void upd()
  {
    if(u)
    {
      Vector2 x = u->update();
      if(x(0) != u->getUnbiasedDCM() || x(1) != u->getBias()) throw std::runtime_error("update() returns another state");
    }
    else
      p->update();
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    long d = a.I();
    if(op == "new")
    {
      long c = a.I();
      double dt = a.R(), om = a.R(), dr = a.R(), ds = a.R(), zs = a.R();
      u.reset();
      p.reset();
      if(d == 1)
      {
        a.R();
        double z = a.R(), x = a.R(), b = a.R(), ux = a.R(), ub = a.R();
        if(c == 0)
          u.reset(new UnidimLipmDcmEstimator(dt, om));
        else
          u.reset(new UnidimLipmDcmEstimator(dt, om, dr, x, z, b, ds, zs, ux, ub));
      }
      else
      {
        Vector2 l = V2(a), z = V2(a), x = V2(a), b = V2(a), ux = V2(a), ub = V2(a);
        if(c == 0)
          p.reset(new LipmDcmEstimator(dt, om));
        else
          p.reset(new LipmDcmEstimator(dt, om, dr, ds, zs, l, z, x, b, ux, ub));
      }
    }
    else if(op == "inputs")
    {
      long how = a.I();
      if(d == 1)
      {
        double y = a.R(), z = a.R();
        u->setInputs(y, z);
      }
      else
      {
        Vector2 y = V2(a), z = V2(a);
        if(how == 0) p->setInputs(y, z);
        if(how == 1) p->setInputs(y, z, M2(a));
        if(how == 2) p->setInputs(y, z, a.R());
        if(how >= 3) p->setInputs(y, z, a.M3());
      }
    }
    else if(op == "update")
      upd();
    else if(op == "cycles")
    {
      long n = a.I();
      double an = a.R();
      for(long k = 0; k < n; ++k)
      {
        if(d == 1)
        {
          double y = a.R(), z = a.R();
          u->setInputs(y, z);
        }
        else
        {
          Vector2 y = V2(a), z = V2(a);
          p->setInputs(y, z, (k + 1) * an);
        }
        upd();
      }
    }
    else if(op == "reset")
    {
      long how = a.I();
      bool biased = a.B();
      long args = a.I();
      if(d == 1)
      {
        double y = a.R(), z = a.R(), b = a.R(), ub = a.R(), dr = a.R(), ds = a.R(), zs = a.R();
        if(args == 0)
          u->resetWithInputs(y, z);
        else
          u->resetWithInputs(y, z, biased, dr, ds, zs, b, ub);
      }
      else
      {
        Vector2 y = V2(a), z = V2(a);
        Matrix2 m2;
        Matrix3 m3;
        double yaw = 0;
        if(how == 1) m2 = M2(a);
        if(how == 2) yaw = a.R();
        if(how >= 3) m3 = a.M3();
        Vector2 b = V2(a), ub = V2(a);
        if(args == 0)
        {
          if(how == 1) p->resetWithMeasurements(y, z, m2);
          if(how == 2) p->resetWithMeasurements(y, z, yaw);
          if(how >= 3) p->resetWithMeasurements(y, z, m3);
        }
        else
        {
          if(how == 1) p->resetWithMeasurements(y, z, m2, biased, b, ub);
          if(how == 2) p->resetWithMeasurements(y, z, yaw, biased, b, ub);
          if(how >= 3) p->resetWithMeasurements(y, z, m3, biased, b, ub);
        }
      }
    }
    else if(op == "param")
    {
      long w = a.I();
      double v = a.R();
      if(u)
      {
        if(w == 0) u->setLipmNaturalFrequency(v);
        if(w == 1) u->setSamplingTime(v);
        if(w == 2) u->setBiasDriftPerSecond(v);
        if(w == 3) u->setZmpMeasureErrorStd(v);
        if(w == 4) u->setDcmMeasureErrorStd(v);
      }
      else
      {
        if(w == 0) p->setLipmNaturalFrequency(v);
        if(w == 1) p->setSamplingTime(v);
        if(w == 2) p->setBiasDriftPerSecond(v);
        if(w == 3) p->setZmpMeasureErrorStd(v);
        if(w == 4) p->setDcmMeasureErrorStd(v);
      }
    }
    else if(op == "limit")
      p->setBiasLimit(V2(a));
    else if(op == "part")
    {
      long part = a.I(), unc = a.I();
      if(u)
      {
        double v = a.R();
        if(unc)
        {
          double s = a.R();
          part ? u->setBias(v, s) : u->setUnbiasedDCM(v, s);
        }
        else
          part ? u->setBias(v) : u->setUnbiasedDCM(v);
      }
      else
      {
        Vector2 v = V2(a);
        if(unc)
        {
          Vector2 s = V2(a);
          part ? p->setBias(v, s) : p->setUnbiasedDCM(v, s);
        }
        else
          part ? p->setBias(v) : p->setUnbiasedDCM(v);
      }
    }
    else if(op == "unset")
      p->getFilter().reset();
    else if(op == "copy")
    {
      bool assign = a.B();
      if(u)
      {
        std::unique_ptr<UnidimLipmDcmEstimator> c(assign ? new UnidimLipmDcmEstimator : new UnidimLipmDcmEstimator(*u));
        if(assign) *c = *u;
        u = std::move(c);
      }
      else
      {
        std::unique_ptr<LipmDcmEstimator> c(assign ? new LipmDcmEstimator : new LipmDcmEstimator(*p));
        if(assign) *c = *p;
        p = std::move(c);
      }
    }
    else
      throw std::runtime_error("harness: op " + op);
    look(o);
  }
};
VP_REPLAY_MAIN(Adapter)
