#include <cstdio>
#include <fstream>
#include <state-observation/tools/logger.hpp>
#include "replay.hpp"
using namespace stateObservation;
using vp::Args;
using vp::Out;

struct SlotBase
{
  int loc = 0;
  virtual ~SlotBase() {}
  virtual void load(Args & a, long n) = 0;
  virtual void record(tools::Logger & l, const std::string & f, long how) = 0;
  virtual void push(tools::Logger & l, long how) = 0;
  virtual void move(tools::Logger & l) = 0;
  virtual const void * address() = 0;
};
template<typename T>
struct Load
{
  static void go(T & t, Args & a, long) { t = T(a.R()); }
};
template<>
struct Load<Matrix>
{
  static void go(Matrix & t, Args & a, long n) { t = a.M(n / 2, 2); }
};
template<>
struct Load<Vector>
{
  static void go(Vector & t, Args & a, long n) { t = a.V(n); }
};
template<>
struct Load<Matrix3>
{
  static void go(Matrix3 & t, Args & a, long) { t = a.M3(); }
};
template<>
struct Load<Vector3>
{
  static void go(Vector3 & t, Args & a, long) { t = a.V3(); }
};
template<typename T>
struct Slot : public SlotBase
{
  T v[2];
  void load(Args & a, long n) override { Load<T>::go(v[loc], a, n); }
  void record(tools::Logger & l, const std::string & f, long how) override
  {
    if(how == 0)
      l.record(v[loc], f);
    else if(how == 1)
      l.record(&v[loc], f);
    else
      l.record(const_cast<const T *>(&v[loc]), f);
  }
  void push(tools::Logger & l, long how) override
  {
    if(how == 0)
      l.push(v[loc]);
    else if(how == 1)
      l.push(&v[loc]);
    else
      l.push(const_cast<const T *>(&v[loc]));
  }
  void move(tools::Logger & l) override
  {
    const T * old = &v[loc];
    v[1 - loc] = v[loc];
    loc = 1 - loc;
    l.updateAddress(old, &v[loc]);
  }
  const void * address() override { return &v[loc]; }
};
static std::string name(long i) { return "slot" + std::to_string(i) + ".log"; }

struct Adapter
{
  static const int N = 9;
  tools::Logger * l = nullptr;
  std::unique_ptr<SlotBase> s[N];
  bool tracked[N];
  Adapter() { wipe(); }
  ~Adapter() { delete l; }
  void wipe()
  {
    for(int i = 0; i < N; ++i) std::remove(name(i).c_str());
  }
  void look(Out & o)
  {
    const tools::Logger & c = *l;
    for(int i = 0; i < N; ++i)
    {
      o.I(tracked[i]);
      if(!tracked[i]) continue;
      const IndexedMatrixArray & r = c.getRecord(s[i]->address());
      o.I(r.getFirstIndex()).I(long(r.size()));
      for(long k = r.getFirstIndex(); k < r.getNextIndex(); ++k) o.M_(r[k]);
    }
  }
  void file(long i, Out & o)
  {
    std::ifstream f(name(i).c_str());
    if(!f.is_open())
    {
      o.I(0);
      return;
    }
    IndexedVectorArray r;
    r.readVectorsFromFile(name(i));
    o.I(1).I(r.size() ? r.getFirstIndex() : 0).I(long(r.size()));
    for(long k = r.getFirstIndex(); k < r.getNextIndex(); ++k) o.M_(r[k]);
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      wipe();
      delete l;
      l = new tools::Logger;
      l->setPath(".");
      s[0].reset(new Slot<Matrix>);
      s[1].reset(new Slot<Vector>);
      s[2].reset(new Slot<Matrix3>);
      s[3].reset(new Slot<Vector3>);
      s[4].reset(new Slot<int>);
      s[5].reset(new Slot<unsigned>);
      s[6].reset(new Slot<long>);
      s[7].reset(new Slot<double>);
      s[8].reset(new Slot<float>);
      for(int i = 0; i < N; ++i) s[i]->load(a, a.I());
      for(int i = 0; i < N; ++i) tracked[i] = false;
      return look(o);
    }
    if(op == "change")
    {
      long i = a.I();
      s[i]->load(a, a.I());
    }
    else if(op == "changeAll")
    {
      for(int i = 0; i < N; ++i) s[i]->load(a, a.I());
    }
    else if(op == "record")
    {
      long i = a.I(), nm = a.I();
      s[i]->record(*l, nm ? name(i) : std::string(), a.I());
      tracked[i] = true;
    }
    else if(op == "recordUnsupported")
    {
      long t = a.I();
      static bool b = true;
      static std::string str;
      static Quaternion q;
      if(t == 0)
        l->record(b);
      else if(t == 1)
        l->record(str, "str.log");
      else
        l->record(q);
    }
    else if(op == "push")
      l->push();
    else if(op == "pushOne")
    {
      long i = a.I();
      s[i]->push(*l, a.I());
    }
    else if(op == "clearLogs")
      l->clearLogs();
    else if(op == "clearTracking")
    {
      l->clearTracking();
      for(int i = 0; i < N; ++i) tracked[i] = false;
    }
    else if(op == "move")
      s[a.I()]->move(*l);
    else if(op == "getUntracked")
    {
      const void * p = s[a.I()]->address();
      const tools::Logger & c = *l;
      if(a.B())
        c.getRecord(p);
      else
        l->getRecord(p);
      return;
    }
    else if(op == "save")
    {
      bool clr = a.B(), app = a.B();
      l->save(clr, app);
    }
    else if(op == "readBack")
      return file(a.I(), o);
    else if(op == "readAll")
    {
      for(int i = 0; i < N; ++i) file(i, o);
      return;
    }
    else
      throw std::runtime_error("harness: op " + op);
    look(o);
  }
};
VP_REPLAY_MAIN(Adapter)
