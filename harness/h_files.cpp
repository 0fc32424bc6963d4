#include <cstdio>
#include <fstream>
#include "replay.hpp"
using namespace stateObservation;
using vp::Args;
using vp::Out;

template<typename A>
void look(const A & a, Out & o)
{
  o.I(a.getFirstIndex()).I(long(a.size()));
  for(long k = a.getFirstIndex(); k < a.getNextIndex(); ++k) o.I(a[k].size());
  for(long k = a.getFirstIndex(); k < a.getNextIndex(); ++k) o.M_(a[k]);
}

static std::string name(long f) { return f == 0 ? "one.dat" : "two.log"; }

template<typename A>
struct Two
{
  A a[2];
  void exec(const std::string & op, Args & x, Out & o, long nr, long nc)
  {
    long which = 0;
    if(op == "add")
    {
      which = x.I();
      long k = x.I();
      a[which].setValue(x.M(nr, nc), k);
    }
    else if(op == "write")
    {
      which = x.I();
      long f = x.I();
      bool clr = x.B(), app = x.B();
      a[which].writeInFile(name(f), clr, app);
    }
    else if(op == "writeFail")
    {
      which = x.I();
      bool clr = x.B(), app = x.B(), told = false;
      try
      {
        a[which].writeInFile("no_such_directory/x.dat", clr, app);
      }
      catch(const std::exception &)
      {
        told = true;
      }
      if(!told) throw std::logic_error("the failed write was not reported");
    }
    else if(op == "read")
    {
      which = x.I();
      long f = x.I();
      a[which].readFromFile(name(f).c_str(), nr, nc, x.B());
    }
    else if(op == "readPlain")
    {
      long f = x.I();
      A b;
      b.readFromFile(name(f), x.I(), 1, false);
      look(b, o);
      return;
    }
    else if(op == "readVectors")
    {
      long f = x.I();
      A b;
      b.readVectorsFromFile(name(f), x.B());
      look(b, o);
      return;
    }
    else if(op == "put")
    {
      long f = x.I(), endl = x.I();
      FILE * out = std::fopen(name(f).c_str(), "w");
      while(x.pi < x.i.size())
      {
        long n = x.I();
        for(long k = 0; k < n; ++k) std::fprintf(out, k ? " %.15g" : "%.15g", x.R());
        if(endl || x.pi < x.i.size()) std::fprintf(out, "\n");
      }
      std::fclose(out);
    }
    else if(op != "new")
      throw std::runtime_error("harness: op " + op);
    look(a[which], o);
  }
};

struct Adapter
{
  std::unique_ptr<Two<IndexedMatrixArray>> m;
  std::unique_ptr<Two<IndexedVectorArray>> v;
  long nr = 1, nc = 1;
  Adapter() { wipe(); }
  void wipe()
  {
    std::remove(name(0).c_str());
    std::remove(name(1).c_str());
  }
  void exec(const std::string & op, Args & a, Out & o)
  {
    if(op == "new")
    {
      wipe();
      m.reset();
      v.reset();
      if(a.I() == 0)
        m.reset(new Two<IndexedMatrixArray>);
      else
        v.reset(new Two<IndexedVectorArray>);
      nr = a.I();
      nc = a.I();
    }
    if(m)
      m->exec(op, a, o, nr, nc);
    else
      v->exec(op, a, o, nr, nc);
  }
};
VP_REPLAY_MAIN(Adapter)
