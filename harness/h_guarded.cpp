#include "replay.hpp"
using namespace stateObservation;
using vp::Args;
using vp::Out;

struct Slots
{
  virtual ~Slots() {}
  virtual void exec(const std::string & op, Args & a, Out & o) = 0;
};

template<typename T>
struct Conv
{
  static T get(Args & a, long n, long m) { return T(a.M(n, m)); }
  static void put(Out & o, const T & t) { o.M_(t); }
};
template<>
struct Conv<double>
{
  static double get(Args & a, long, long) { return a.R(); }
  static void put(Out & o, const double & t) { o.R(t); }
};
template<>
struct Conv<Quaternion>
{
  static Quaternion get(Args & a, long, long) { return Quaternion(Vector4(a.V(4))); }
  static void put(Out & o, const Quaternion & t) { o.M_(t.coeffs()); }
};

template<typename T, typename Item, long N, long M>
struct Guarded : public Slots
{
  std::unique_ptr<Item> s[3];
  Guarded()
  {
    for(auto & x : s) x.reset(new Item);
  }
  T val(Args & a) { return Conv<T>::get(a, N, M); }
  void exec(const std::string & op, Args & a, Out & o) override
  {
    if(op == "newFrom")
    {
      a.I();
      s[0].reset(new Item(val(a)));
    }
    else if(op == "assign")
    {
      long i = a.I();
      *s[i] = val(a);
    }
    else if(op == "assignRef")
    {
      long i = a.I();
      s[i]->set() = val(a);
    }
    else if(op == "writeThrough")
    {
      long i = a.I();
      (*s[i])() = val(a);
    }
    else if(op == "reset")
      s[a.I()]->reset();
    else if(op == "flag")
    {
      long i = a.I();
      s[i]->set(a.B());
    }
    else if(op == "copy")
    {
      long i = a.I(), j = a.I(), how = a.I();
      if(how == 0)
        s[i].reset(new Item(*s[j]));
      else
        *s[i] = *s[j];
    }
    else if(op == "read")
    {
      const Item & c = *s[a.I()];
      long how = a.I();
      if(how == 0)
        Conv<T>::put(o, c());
      else if(how == 1)
        Conv<T>::put(o, const_cast<Item &>(c)());
      else if(how == 2)
        Conv<T>::put(o, c.chckitm_getValue());
      else
      {
        const T & r = c;
        Conv<T>::put(o, r);
      }
      return;
    }
    else if(op != "new")
      throw std::runtime_error("harness: op " + op);
    for(auto & x : s)
    {
      bool b1 = x->isSet(), b2 = x->isSet();
      o.I(b1 && b2).I(0);
    }
    for(auto & x : s)
      if(x->isSet()) Conv<T>::put(o, (*x)());
  }
};

template<typename T, typename Item, long N, long M>
struct Stamped : public Slots
{
  std::unique_ptr<Item> s[3];
  Stamped()
  {
    for(auto & x : s) x.reset(new Item);
  }
  T val(Args & a) { return T(a.M(N, M)); }
  void exec(const std::string & op, Args & a, Out & o) override
  {
    if(op == "newFrom")
    {
      long t = a.I();
      s[0].reset(new Item(val(a), t));
    }
    else if(op == "assign")
    {
      long i = a.I(), t = a.I();
      s[i]->set(val(a), t);
    }
    else if(op == "writeThrough")
    {
      long i = a.I();
      (*s[i])() = val(a);
    }
    else if(op == "reset")
      s[a.I()]->reset();
    else if(op == "flag")
    {
      long i = a.I();
      s[i]->set(a.B());
    }
    else if(op == "copy")
    {
      long i = a.I(), j = a.I(), how = a.I();
      if(how == 0)
        s[i].reset(new Item(*s[j]));
      else
        *s[i] = *s[j];
    }
    else if(op == "read")
    {
      const Item & c = *s[a.I()];
      long how = a.I();
      if(how % 2 == 0)
        o.M_(c());
      else
        o.M_(const_cast<Item &>(c)());
      return;
    }
    else if(op == "getTime")
    {
      o.I(long(s[a.I()]->getTime()));
      return;
    }
    else if(op == "setIndex")
    {
      long i = a.I();
      s[i]->setIndex(a.I());
    }
    else if(op != "new")
      throw std::runtime_error("harness: op " + op);
    for(auto & x : s)
    {
      bool b1 = x->isSet(), b2 = x->isSet();
      o.I(b1 && b2).I(b1 ? long(x->getTime()) : 0);
    }
    for(auto & x : s)
      if(x->isSet()) o.M_((*x)());
  }
};

struct Adapter
{
  std::unique_ptr<Slots> s;
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new" || op == "newFrom")
    {
      long k = a.I();
      if(k == 0) s.reset(new Guarded<Vector3, CheckedVector3, 3, 1>);
      if(k == 1) s.reset(new Guarded<double, CheckedItem<double, false, true, false>, 1, 1>);
      if(k == 2) s.reset(new Guarded<Matrix, CheckedItem<Matrix, true>, 2, 2>);
      if(k == 3) s.reset(new Stamped<Vector, IndexedVector, 3, 1>);
      if(k == 4) s.reset(new Stamped<Matrix3, IndexedMatrix3, 3, 3>);
      if(k == 5) s.reset(new Guarded<Quaternion, CheckedQuaternion, 4, 1>);
    }
    s->exec(op, a, o);
  }
};
VP_REPLAY_MAIN(Adapter)
