#include "replay.hpp"
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
using namespace stateObservation;
using vp::Args;
using vp::Out;

static void twice(const Vector & s, const Vector & t, Vector & r) { r = s + 2 * t; }

struct Adapter
{
  std::unique_ptr<AlgebraicSensor> s;
  long kind = 0;
  std::unique_ptr<GaussianWhiteNoise> n;
  Matrix std_;
  Vector bias;
  double scale = 1;
  Vector last;

  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      kind = a.I();
      n.reset();
      if(kind == 0)
        s.reset(new AccelerometerGyrometer);
      else
        s.reset(new AccelerometerGyrometerMagnetometer);
    }
    else if(op == "state")
      s->setState(a.V(a.r.size()), a.I());
    else if(op == "mode")
    {
      if(kind == 0)
        static_cast<AccelerometerGyrometer &>(*s).setMatrixMode(a.B());
      else
        static_cast<AccelerometerGyrometerMagnetometer &>(*s).setMatrixMode(a.B());
    }
    else if(op == "concat")
      o.I(s->concatenateWithInput(a.I()));
    else if(op == "ask")
    {
      bool noisy = a.B();
      o.M_(s->getMeasurements(noisy));
      return;
    }
    else if(op == "askNoisy")
    {
      bool again = a.B(), byDefault = a.B();
      Vector c0 = last;
      Vector v = byDefault ? s->getMeasurements() : s->getMeasurements(true);
      Vector c = s->getMeasurements(false);
      if(v.size() != c.size()) throw std::runtime_error("sizes of noisy and noiseless differ");
      bool ok = true, random = false, differs = false;
      for(Index i = 0; i < v.size(); ++i)
      {
        double sd = std_.row(i).norm() * scale;
        if(sd == 0)
        {
          o.R(v(i));
          continue;
        }
        random = true;
        double d = v(i) - c(i) - scale * bias0(again, i);
        if(!(std::abs(d) <= 12 * sd) || d == 0) ok = false;
        o.R(0);
      }
      if(again)
        ok = ok && v == last;
      else
      {
        taken = bias;
        if(random && last.size() == v.size())
        {
          for(Index i = 0; i < v.size(); ++i)
            if(std_.row(i).norm() > 0 && v(i) != last(i)) differs = true;
          ok = ok && differs;
        }
      }
      last = v;
      o.I(ok);
      return;
    }
    else if(op == "attach")
    {
      long d = a.I(), how = a.I(), cov = a.I(), sm = a.I();
      Matrix m = a.M(d, d);
      n.reset(how == 0 ? new GaussianWhiteNoise(d) : new GaussianWhiteNoise());
      if(how == 1) n->setDimension(d);
      if(n->getDimension() != d) throw std::runtime_error("dimension");
      if(cov)
        n->setCovarianceMatrix(m);
      else
        n->setStandardDeviation(m);
      std_ = m;
      if(cov) std_ = m.cwiseSqrt();
      bias = a.V(d);
      n->setBias(bias);
      scale = 1;
      if(sm)
      {
        n->setSumFunction(&twice);
        scale = 2;
      }
      s->setNoise(n.get());
    }
    else if(op == "detach")
      s->resetNoise();
    else if(op == "reattach")
      s->setNoise(n.get());
    else if(op == "rebias")
    {
      bias = a.V(n->getDimension());
      n->setBias(bias);
    }
    else if(op == "badNoise")
    {
      long w = a.I(), d = a.I();
      GaussianWhiteNoise g(d);
      if(w == 0) g.setBias(Vector::Zero(d + 1));
      if(w == 1) g.setStandardDeviation(Matrix::Zero(d, d + 1));
      if(w == 2) g.getNoisy(Vector::Zero(d - 1));
    }
    else if(op == "law")
    {
      long d = a.I(), cov = a.I();
      GaussianWhiteNoise g(d);
      Matrix m = a.M(d, d), c = a.M(d, d);
      Vector b = a.V(d);
      if(cov)
        g.setCovarianceMatrix(m);
      else
        g.setStandardDeviation(m);
      g.setBias(b);
      const int N = 4000;
      Vector z = Vector::Constant(d, 1.5), mean = Vector::Zero(d);
      Matrix e = Matrix::Zero(d, d);
      for(int i = 0; i < N; ++i)
      {
        Vector x = g.getNoisy(z) - z - b;
        mean += x / N;
        e += x * x.transpose() / N;
      }
      bool ok = true;
      for(int i = 0; i < d; ++i)
      {
        // eight standard deviations of the estimates
        if(!(std::abs(mean(i)) <= 8 * std::sqrt(c(i, i) / N) + 1e-9)) ok = false;
        for(int j = 0; j < d; ++j)
          if(!(std::abs(e(i, j) - c(i, j)) <= 8 * std::sqrt(2 * c(i, i) * c(j, j) / N) + 1e-9)) ok = false;
      }
      o.I(ok);
      return;
    }
    else if(op == "sizes")
    {
      Vector z = s->stateVectorZero();
      o.I(z.size()).I(s->checkStateVector(z)).I(s->checkStateVector(Vector::Zero(z.size() + 1))).M_(z);
      return;
    }
    else
      throw std::runtime_error("harness: op " + op);
    o.I(s->getStateSize()).I(s->getMeasurementSize()).I(s->getTime()).I(s->getNoise() != nullptr);
    if(s->getNoise() && s->getNoise() != n.get()) throw std::runtime_error("another noise");
  }
  Vector taken;
  double bias0(bool again, Index i) { return again && taken.size() > i ? taken(i) : bias(i); }
};
VP_REPLAY_MAIN(Adapter)
