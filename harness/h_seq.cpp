#include "replay.hpp"
using namespace stateObservation;
using vp::Args;
using vp::Out;

template<typename T>
struct Seq
{
  typedef IndexedMatrixArrayT<T> A;
  std::unique_ptr<A> a;
  long nr = 1, nc = 1;
  static T conv(const Matrix & m) { return T(m); }
  T val(Args & x) { return conv(x.M(nr, nc)); }
  void look(Out & o)
  {
    const A & c = *a;
    long f = c.getFirstIndex(), l = c.getLastIndex(), n = c.getNextIndex();
    o.I(long(c.size())).I(f).I(l).I(n);
    o.I(c.checkIndex(f - 1)).I(c.checkIndex(f)).I(c.checkIndex(l)).I(c.checkIndex(n));
    for(long k = f; k < n; ++k) o.M_(c[k]);
  }
  void exec(const std::string & op, Args & x, Out & o)
  {
    if(op == "new" || op == "newSized")
    {
      nr = x.I();
      nc = x.I();
      if(op == "new")
        a.reset(new A);
      else
      {
        long n = x.I(), f = x.I();
        a.reset(new A(TimeSize(n), f));
        for(long k = f; k < f + n; ++k) a->setValue(val(x), k);
      }
    }
    else if(op == "setValue")
    {
      T v = val(x);
      a->setValue(v, x.I());
    }
    else if(op == "pushBack")
      a->pushBack(val(x));
    else if(op == "popFront")
      a->popFront();
    else if(op == "get")
    {
      long k = x.I();
      bool cst = x.B();
      const A & c = *a;
      if(cst)
        o.S(c[k]);
      else
        o.S((*a)[k]);
      return;
    }
    else if(op == "writeRef")
    {
      long k = x.I();
      (*a)[k] = val(x);
    }
    else if(op == "ends")
    {
      const A & c = *a;
      o.M_(c.front()).M_(c.back());
      return;
    }
    else if(op == "getArray")
    {
      typename A::Array v = a->getArray();
      o.I(long(v.size()));
      for(auto & m : v) o.M_(m);
      return;
    }
    else if(op == "truncateAfter")
      a->truncateAfter(x.I());
    else if(op == "truncateBefore")
      a->truncateBefore(x.I());
    else if(op == "resize")
    {
      T v = val(x);
      a->resize(TimeSize(x.I()), v);
    }
    else if(op == "setFirst")
      a->setFirstIndex(int(x.I()));
    else if(op == "setLast")
      a->setLastIndex(int(x.I()));
    else if(op == "clear")
      a->clear();
    else if(op == "reset")
      a->reset();
    else if(op == "copyMutate")
    {
      A b(*a);
      b.pushBack(val(x));
      b.popFront();
      b.reset();
      A c;
      c = *a;
      c.clear();
    }
    else
      throw std::runtime_error("harness: op " + op);
    look(o);
  }
};

struct Adapter
{
  Seq<Matrix> m;
  Seq<Vector> v;
  int kind = 0;
  void exec(const std::string & op, Args & x, Out & o)
  {
    if(op == "new" || op == "newSized") kind = int(x.I());
    if(kind == 0)
      m.exec(op, x, o);
    else
      v.exec(op, x, o);
  }
};
VP_REPLAY_MAIN(Adapter)
