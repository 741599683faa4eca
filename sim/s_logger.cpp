// C08: every logged sample reaches its file exactly once and in order
#include "core.hpp"

#include <fstream>
#include <memory>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

#include <state-observation/tools/logger.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
// fixed layout: the logger orders its variables by address
struct Pool
{
  so::Matrix m[2];
  so::Vector v[2];
  so::Matrix3 m3[2];
  so::Vector3 v3[2];
  int i[2];
  unsigned u[2];
  long l[2];
  double d[2];
  float f[2];
  char none;
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
};
const int NT = 9;
struct Sample
{
  i64 t;
  Mat v;
};
struct Var
{
  bool tracked = false, named = false;
  i64 fileId = 0;
  std::vector<Sample> mem;
  i64 next = 0;
};
struct File
{
  bool exists = false, torn = false;
  std::vector<Sample> rec;
};
bool near6(double a, double b)
{
  return std::fabs(a - b) <= 6e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-320;
}
struct LogRig
{
  Ctx & c;
  std::unique_ptr<Pool> p;
  so::tools::Logger log;
  Var var[NT * 2];
  std::map<std::string, File> files;
  i64 dir = 0, made = 0;
  i64 logged = 0, saved = 0;
  explicit LogRig(Ctx & cc) : c(cc), p(new Pool)
  {
    for(int s = 0; s < NT * 2; ++s) assign(s, s + 1);
    chdir2(0);
  }
  std::string dirName(i64 d)
  {
    return io::scratch() + "/d" + std::to_string(d);
  }
  void chdir2(i64 d)
  {
    dir = d;
    mkdir(dirName(d).c_str(), 0700);
    LIB(log.setPath(dirName(d)));
  }
  std::string fname(const Var & v)
  {
    return "f" + std::to_string(v.fileId) + ".log";
  }
  // a non const pointer, a const pointer or a reference, as users write it
  template<typename F>
  void with(int s, F f)
  {
    int k = s & 1;
    switch(s / 2)
    {
      case 0:
        return f(p->m[k]);
      case 1:
        return f(p->v[k]);
      case 2:
        return f(p->m3[k]);
      case 3:
        return f(p->v3[k]);
      case 4:
        return f(p->i[k]);
      case 5:
        return f(p->u[k]);
      case 6:
        return f(p->l[k]);
      case 7:
        return f(p->d[k]);
      default:
        return f(p->f[k]);
    }
  }
  const void * addr(int s)
  {
    const void * a = nullptr;
    with(s, [&](auto & x) { a = &x; });
    return a;
  }
  void assign(int s, i64 seed)
  {
    Rng r{u64(seed)};
    int k = s & 1;
    bool wide = u64(seed) % 3 == 1; // the whole range of the types, not the everyday one
    switch(s / 2)
    {
      case 0:
        p->m[k] = rmat(u64(seed), r.range(1, 3), r.range(1, 3), 100.);
        break;
      case 1:
        p->v[k] = rvec(u64(seed), r.range(1, 4), 1e4);
        break;
      case 2:
        p->m3[k] = rmat(u64(seed), 3, 3, 1e-3);
        break;
      case 3:
        p->v3[k] = rvec(u64(seed), 3, 10.);
        break;
      case 4:
        p->i[k] = wide ? int(r.range(-2147483647LL - 1, 2147483647LL)) : int(r.range(-99999, 99999));
        break;
      case 5:
        p->u[k] = wide ? unsigned(r.range(0, 4294967295LL)) : unsigned(r.range(0, 999999));
        break;
      case 6:
        p->l[k] = wide ? long(r.range(-(1LL << 53), 1LL << 53)) : long(r.range(-99999, 99999));
        break;
      case 7:
        p->d[k] = r.uni(-1, 1) * std::pow(10., wide ? double(r.range(-250, 250)) : double(r.range(-9, 9)));
        break;
      default:
        p->f[k] = wide ? float(r.uni(-1, 1) * std::pow(10., double(r.range(-30, 30)))) : float(r.uni(-100, 100));
    }
  }
  Mat value(int s)
  {
    int k = s & 1;
    switch(s / 2)
    {
      case 0:
        return p->m[k];
      case 1:
        return p->v[k];
      case 2:
        return p->m3[k];
      case 3:
        return p->v3[k];
      case 4:
        return Mat::Constant(1, 1, double(p->i[k]));
      case 5:
        return Mat::Constant(1, 1, double(p->u[k]));
      case 6:
        return Mat::Constant(1, 1, double(p->l[k]));
      case 7:
        return Mat::Constant(1, 1, p->d[k]);
      default:
        return Mat::Constant(1, 1, double(p->f[k]));
    }
  }
  template<typename F>
  bool refused(F f)
  {
    try
    {
      f();
    }
    catch(const AssertFailure &)
    {
      return true;
    }
    catch(const std::invalid_argument &)
    {
      return true;
    }
    return false;
  }
  void pushed(int s)
  {
    Var & v = var[s];
    v.mem.push_back(Sample{v.next++, value(s)});
    ++logged;
  }
  void fileSame(const std::string & path, const char * when)
  {
    File & f = files[path];
    if(!f.exists || f.torn) return;
    std::ifstream in(path, std::ios::binary);
    c.check(in.is_open(), "log-file", "%s: %s does not exist", when, path.c_str());
    std::string line;
    size_t i = 0;
    while(std::getline(in, line))
    {
      c.check(i < f.rec.size(), "log-file", "%s: the file has more than the %zu samples saved: '%s'", when, f.rec.size(), line.c_str());
      std::vector<double> n;
      const char * q = line.c_str();
      for(;;)
      {
        char * e;
        double d = std::strtod(q, &e);
        if(e == q) break;
        n.push_back(d);
        q = e;
      }
      const Sample & s = f.rec[i];
      c.check(!n.empty() && n[0] == double(s.t), "log-file", "%s: sample %zu is '%s', expected time %lld", when, i, line.c_str(), (long long)s.t);
      bool ok = i64(n.size()) == s.v.size() + 1;
      for(i64 a = 0, k = 1; ok && a < s.v.rows(); ++a)
        for(i64 b = 0; ok && b < s.v.cols(); ++b, ++k) ok = near6(n[size_t(k)], s.v(a, b));
      c.check(ok, "log-file", "%s: sample %zu (time %lld) is '%s'", when, i, (long long)s.t, line.c_str());
      ++i;
    }
    c.check(i == f.rec.size(), "log-file", "%s: the file has %zu samples, expected %zu", when, i, f.rec.size());
  }
  void same()
  {
    const so::tools::Logger & cl = log;
    for(int s = 0; s < NT * 2; ++s)
    {
      Var & v = var[s];
      if(!v.tracked) continue;
      const so::IndexedMatrixArray & a = LIB(std::cref(cl.getRecord(addr(s)))).get();
      c.check(i64(LIB(a.size())) == i64(v.mem.size()), "log-memory", "variable %d: %lld samples in memory, expected %zu", s, (long long)LIB(a.size()),
              v.mem.size());
      c.check(i64(LIB(a.getNextIndex())) == v.next, "log-memory", "variable %d: next time %lld, expected %lld", s, (long long)LIB(a.getNextIndex()),
              (long long)v.next);
      for(auto & x : v.mem)
      {
        c.check(LIB(a.checkIndex(x.t)), "log-memory", "variable %d: no sample at time %lld", s, (long long)x.t);
        c.closeM(LIB(Mat(a[x.t])), x.v, 0., "log-memory", "logged sample");
      }
    }
  }
  void save(bool clear, bool append, int kind, i64 par)
  {
    io::Plan p;
    static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
    switch(kind)
    {
      case 1:
        p.openErr = (par & 1) ? EMFILE : EACCES;
        p.openSkip = (par / 2) % 6;
        break;
      case 2:
      case 3:
        p.writeBudget = par;
        p.writeErr = errs[par & 3];
        p.shortWrites = kind == 3;
        break;
      case 4:
        p.closeErr = errs[par & 3];
        break;
      case 5:
        p.shortWrites = true;
        p.eintrEvery = 2 + (par & 3);
        break;
    }
    if(kind) io::arm(p);
    bool threw = false;
    try
    {
      LIB(log.save(clear, append));
    }
    catch(const std::exception & e)
    {
      threw = true;
    }
    io::Fired f = io::fired();
    if(kind)
    {
      io::disarm();
      c.fault("disk_open_error", u64(f.openErr));
      c.fault("disk_write_error", u64(f.writeErr));
      c.fault("disk_close_error", u64(f.closeErr));
      c.fault("short_write", u64(f.shortWrite));
      c.fault("interrupted_call", u64(f.eintr));
    }
    bool hard = kind && (f.openErr || f.writeErr || f.closeErr);
    c.check(threw == hard, "log-save", hard ? "a failed save was not reported" : "a save failed on a healthy disk");
    for(int s = 0; s < NT * 2; ++s)
    {
      Var & v = var[s];
      if(!v.tracked || !v.named) continue;
      std::string path = dirName(dir) + "/" + fname(v);
      File & F = files[path];
      if(hard)
      {
        // written and released, or still entirely in memory
        i64 left = i64(LIB(log.getRecord(addr(s)).size()));
        if(clear && left == 0 && !v.mem.empty())
        {
          if(!append)
          {
            F.torn = false;
            F.rec.clear();
          }
          F.exists = true;
          F.rec.insert(F.rec.end(), v.mem.begin(), v.mem.end());
          v.mem.clear();
          fileSame(path, "released although another file failed");
        }
        else
        {
          F.exists = true;
          F.torn = true; // anything between the old and the new content
        }
        continue;
      }
      if(!append)
      {
        F.rec.clear();
        F.torn = false;
      }
      F.exists = true;
      F.rec.insert(F.rec.end(), v.mem.begin(), v.mem.end());
      if(clear) v.mem.clear();
      fileSame(path, "after a save");
    }
    if(!hard) ++saved;
  }
  void apply(const Op & o)
  {
    const std::string & n = o.n;
    int s = int(std::llabs(o.arg(0)) % (NT * 2));
    Var & v = var[s];
    if(n == "track")
    {
      std::string fn = o.arg(1) ? "f" + std::to_string(made) + ".log" : "";
      i64 how = o.arg(2);
      with(s, [&](auto & x) {
        typedef typename std::remove_reference<decltype(x)>::type T;
        Arm g;
        if(how == 0)
          log.record(&x, fn);
        else if(how == 1)
          log.record(static_cast<const T *>(&x), fn);
        else
          log.record(x, fn);
      });
      if(v.tracked) return; // already tracked: unchanged
      v = Var();
      v.tracked = true;
      v.named = o.arg(1);
      v.fileId = made++;
    }
    else if(n == "set")
      assign(s, o.arg(1));
    else if(n == "all")
    {
      LIB(log.push());
      for(int q = 0; q < NT * 2; ++q)
        if(var[q].tracked) pushed(q);
    }
    else if(n == "one")
    {
      i64 how = o.arg(1);
      auto call = [&]() {
        with(s, [&](auto & x) {
          typedef typename std::remove_reference<decltype(x)>::type T;
          Arm g;
          if(how == 0)
            log.push(&x);
          else if(how == 1)
            log.push(static_cast<const T *>(&x));
          else
            log.push(x);
        });
      };
      if(v.tracked)
      {
        call();
        pushed(s);
      }
      else
      {
        c.check(refused(call), "log-refusal", "pushing a variable that is not tracked was accepted");
        c.fault("refused_call");
      }
    }
    else if(n == "move") // the variable moves to another address of the same type
    {
      int d = s ^ 1;
      auto call = [&]() {
        with(d, [&](auto & x) {
          typedef typename std::remove_reference<decltype(x)>::type T;
          Arm g;
          log.updateAddress(addr(s), static_cast<const T *>(&x));
        });
      };
      if(!v.tracked)
      {
        c.check(refused(call), "log-refusal", "moving a variable that is not tracked was accepted");
        c.fault("refused_call");
        return;
      }
      if(var[d].tracked) return;
      call();
      var[d] = v;
      v = Var();
      c.check(refused([&]() { (void)LIB(log.getRecord(addr(s)).size()); }), "log-refusal", "the old address is still tracked");
      c.probe("address_moved");
    }
    else if(n == "save")
      save(o.arg(0), o.arg(1), int(o.arg(2)), o.arg(3));
    else if(n == "clearlogs")
    {
      LIB(log.clearLogs());
      for(auto & q : var) q.mem.clear();
    }
    else if(n == "cleartracking")
    {
      LIB(log.clearTracking());
      for(auto & q : var) q = Var();
      c.check(refused([&]() { (void)LIB(log.getRecord(addr(s)).size()); }), "log-refusal", "a variable is still tracked");
    }
    else if(n == "path")
      chdir2(std::llabs(o.arg(0)) % 3);
  }
};
Case genC08(Rng & r, bool th)
{
  Case c;
  i64 nt = r.range(1, 6);
  std::vector<i64> slots;
  for(i64 i = 0; i < nt; ++i)
  {
    slots.push_back(r.range(0, NT * 2 - 1));
    c.add("track", {slots.back(), r.chance(0.85), r.range(0, 2)});
  }
  bool stream = r.chance(0.6);
  double faulty = r.chance(0.4) ? 0 : r.uni(0.05, 0.5);
  double pMove = r.chance(0.6) ? 0 : 0.5, pTrack = r.chance(0.5) ? 0 : 0.4, pClear = r.chance(0.7) ? 0 : 0.2, pPath = r.chance(0.8) ? 0 : 0.2;
  i64 n = r.range(5, th ? 80 : 40);
  for(i64 k = 0; k < n; ++k)
  {
    i64 s = r.chance(0.9) ? slots[size_t(r.range(0, nt - 1))] : r.range(0, NT * 2 - 1);
    switch(r.pick({2., 3., 1., 1.5, pMove, pTrack, pClear, pClear / 4, pPath}))
    {
      case 0:
        c.add("set", {s, r.seed()});
        break;
      case 1:
        c.add("set", {s, r.seed()});
        c.add("all", {});
        break;
      case 2:
        c.add("one", {s, r.range(0, 2)});
        break;
      case 3:
      {
        i64 kind = r.chance(faulty) ? r.range(1, 5) : 0;
        c.add("save", {stream ? 1 : r.range(0, 1), stream ? 1 : r.range(0, 1), kind, r.range(0, r.chance(0.5) ? 60 : 600)});
        break;
      }
      case 4:
        c.add("move", {s});
        break;
      case 5:
        c.add("track", {s, r.chance(0.85), r.range(0, 2)});
        break;
      case 6:
        c.add("clearlogs", {});
        break;
      case 7:
        c.add("cleartracking", {s});
        break;
      default:
        c.add("path", {r.range(0, 2)});
    }
  }
  c.add("save", {1, 1, 0, 0});
  return c;
}
void execC08(const Case & k, Ctx & c)
{
  LogRig rig(c);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
    rig.same();
    u64 h = 0;
    for(int s = 0; s < NT * 2; ++s)
      if(rig.var[s].tracked) h = mix64(h, u64(s) * 1000 + rig.var[s].mem.size());
    c.state(h);
    c.fold(h);
    c.log("%s logged=%lld", k.ops[i].n.c_str(), (long long)rig.logged);
  }
  for(auto & f : rig.files) rig.fileSame(f.first, "at the end");
  c.nontrivial = rig.logged > 2 && rig.saved > 0;
}
Reg rC08({"C08", "logger", 80000, 2000000,
          "random histories of tracking, pushing one or all variables of nine types, moving addresses, periodic saves (clear/append) and path "
          "changes, with open/write/close errors on the nth file or byte, short and interrupted writes; memory and every file are compared "
          "with a model after each operation; non-trivial: more than two samples and a successful save; distinct: different op list",
          "tools::Logger, IndexedMatrixArrayT, libstdc++ streams, kernel files in a scratch directory", "fopen/fclose/write (faults injected)", genC08,
          execC08});
} // namespace
} // namespace sim
