// C06 time-indexed containers against a map model, C07 record files under disk faults and crashes
#include "core.hpp"

#include <fstream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

#include <state-observation/tools/definitions.hpp>

namespace sim
{
namespace so = stateObservation;

// ================================================================ C06
namespace
{
struct MArr
{
  i64 first = 0; // time of the first element, or of the next one when empty
  bool firstKnown = true;
  std::vector<Mat> v;
  i64 last() const
  {
    return first + i64(v.size()) - 1;
  }
};
Mat val(i64 seed)
{
  Rng r{u64(seed)};
  i64 n = r.range(1, 4), m = r.range(1, 3);
  return rmat(u64(seed), n, m, 10.);
}
template<typename F>
bool refused(F f) // true when the checked build refuses the call
{
  try
  {
    f();
  }
  catch(const AssertFailure &)
  {
    return true;
  }
  return false;
}
struct ArrRig
{
  Ctx & c;
  so::IndexedMatrixArray a[2];
  MArr m[2];
  so::IndexedMatrix im;
  bool imSet = false;
  Mat imV;
  i64 imK = 0;
  i64 grown = 0, refusals = 0;
  explicit ArrRig(Ctx & cc) : c(cc) {}

  void same(int i)
  {
    so::IndexedMatrixArray & A = a[i];
    MArr & M = m[i];
    const so::IndexedMatrixArray & CA = A;
    i64 n = i64(LIB(A.size()));
    c.check(n == i64(M.v.size()), "array-size", "array %d holds %lld elements, expected %zu", i, (long long)n, M.v.size());
    if(M.v.empty() && !M.firstKnown)
    {
      M.first = i64(LIB(A.getNextIndex())); // any time is acceptable for the next element
      M.firstKnown = true;
    }
    c.check(i64(LIB(A.getFirstIndex())) == M.first || M.v.empty(), "array-index", "first time %lld, expected %lld",
            (long long)LIB(A.getFirstIndex()), (long long)M.first);
    c.check(i64(LIB(A.getNextIndex())) == M.last() + 1, "array-index", "next time %lld, expected %lld", (long long)LIB(A.getNextIndex()),
            (long long)M.last() + 1);
    c.check(i64(LIB(A.getLastIndex())) == M.last(), "array-index", "last time %lld, expected %lld", (long long)LIB(A.getLastIndex()),
            (long long)M.last());
    c.check(!LIB(A.checkIndex(M.first - 1)) && !LIB(A.checkIndex(M.last() + 1)), "array-index", "a time outside the range is reported present");
    for(size_t k = 0; k < M.v.size(); ++k)
    {
      i64 t = M.first + i64(k);
      c.check(LIB(A.checkIndex(t)), "array-index", "time %lld is missing", (long long)t);
      Mat g = LIB(Mat(CA[t]));
      c.closeM(g, M.v[k], 0., "array-value", "array element");
      g = LIB(Mat(A[t]));
      c.closeM(g, M.v[k], 0., "array-value", "array element (mutable access)");
    }
    if(!M.v.empty())
    {
      c.closeM(LIB(Mat(CA.front())), M.v.front(), 0., "array-value", "first element");
      c.closeM(LIB(Mat(CA.back())), M.v.back(), 0., "array-value", "last element");
    }
    so::IndexedMatrixArray::Array arr = LIB(A.getArray());
    c.check(arr.size() == M.v.size(), "array-size", "conversion has %zu elements, expected %zu", arr.size(), M.v.size());
    for(size_t k = 0; k < arr.size(); ++k) c.closeM(arr[k], M.v[k], 0., "array-value", "converted element");
    u64 h = mix64(u64(M.v.size()), u64(M.first));
    c.fold(h);
    c.state(mix64(h, u64(i)));
  }
  void sameItem()
  {
    c.check(LIB(im.isSet()) == imSet, "item", "set flag is wrong");
    if(imSet)
    {
      c.check(i64(LIB(im.getTime())) == imK, "item", "time is %lld, expected %lld", (long long)LIB(im.getTime()), (long long)imK);
      c.closeM(LIB(Mat(im())), imV, 0., "item", "value");
    }
    else
      c.check(refused([&]() { (void)LIB(im.getTime()); }) && refused([&]() { (void)LIB(Mat(im())); }), "item", "an unset value was readable");
  }
  void apply(const Op & o)
  {
    int i = int(o.arg(0) & 1);
    so::IndexedMatrixArray & A = a[i];
    MArr & M = m[i];
    const std::string & n = o.n;
    if(n == "push")
    {
      Mat v = val(o.arg(1));
      LIB(A.pushBack(v));
      M.v.push_back(v);
      ++grown;
    }
    else if(n == "many") // a long recording
    {
      i64 k = std::llabs(o.arg(2)) % 600;
      for(i64 q = 0; q < k; ++q)
      {
        Mat v = val(o.arg(1) + q);
        LIB(A.pushBack(v));
        M.v.push_back(v);
      }
      ++grown;
    }
    else if(n == "drain") // many elements leave one by one
    {
      i64 k = std::min<i64>(i64(M.v.size()), std::llabs(o.arg(1)) % 600);
      for(i64 q = 0; q < k; ++q) LIB(A.popFront());
      M.v.erase(M.v.begin(), M.v.begin() + k);
      M.first += k;
    }
    else if(n == "set") // relative position in [-?]: existing element, or the next one
    {
      Mat v = val(o.arg(1));
      i64 t;
      if(M.v.empty())
      {
        t = o.arg(2);
        M.first = t;
        M.v.push_back(v);
      }
      else
      {
        i64 r = std::llabs(o.arg(2)) % i64(M.v.size() + 1);
        t = M.first + r;
        if(r == i64(M.v.size()))
          M.v.push_back(v);
        else
          M.v[size_t(r)] = v;
      }
      LIB(A.setValue(v, t));
      ++grown;
    }
    else if(n == "gap")
    {
      if(M.v.empty()) return;
      i64 d = std::llabs(o.arg(2)) % 3;
      i64 t = (o.arg(2) & 1) ? M.last() + 2 + d : M.first - 1 - d;
      c.check(refused([&]() { LIB(A.setValue(val(o.arg(1)), t)); }), "array-refusal", "setting time %lld next to [%lld,%lld] was accepted",
              (long long)t, (long long)M.first, (long long)M.last());
      c.fault("refused_insertion");
      ++refusals;
    }
    else if(n == "badget")
    {
      i64 d = std::llabs(o.arg(1)) % 4;
      i64 t = (o.arg(1) & 1) ? M.last() + 1 + d : M.first - 1 - d;
      const so::IndexedMatrixArray & CA = A;
      c.check(refused([&]() { (void)LIB(Mat(CA[t])); }), "array-refusal", "reading time %lld outside [%lld,%lld] was accepted", (long long)t,
              (long long)M.first, (long long)M.last());
      c.check(refused([&]() { (void)LIB(Mat(A[t])); }), "array-refusal", "accessing time %lld outside [%lld,%lld] was accepted", (long long)t,
              (long long)M.first, (long long)M.last());
      c.fault("refused_access");
    }
    else if(n == "pop")
    {
      if(M.v.empty())
      {
        c.check(refused([&]() { LIB(A.popFront()); }), "array-refusal", "removing from an empty array was accepted");
        c.fault("refused_access");
        return;
      }
      LIB(A.popFront());
      M.v.erase(M.v.begin());
      M.first++;
    }
    else if(n == "write") // through the mutable access
    {
      if(M.v.empty()) return;
      Mat v = val(o.arg(1));
      size_t r = size_t(std::llabs(o.arg(2))) % M.v.size();
      switch(std::llabs(o.arg(3)) % 3)
      {
        case 0:
          LIB(A[M.first + i64(r)] = v);
          M.v[r] = v;
          break;
        case 1:
          LIB(A.front() = v);
          M.v.front() = v;
          break;
        default:
          LIB(A.back() = v);
          M.v.back() = v;
      }
    }
    else if(n == "after")
    {
      i64 t = M.first + o.arg(1);
      LIB(A.truncateAfter(t));
      while(!M.v.empty() && M.last() > t) M.v.pop_back();
      if(M.v.empty()) M.firstKnown = false;
    }
    else if(n == "before")
    {
      i64 t = M.first + o.arg(1);
      LIB(A.truncateBefore(t));
      while(!M.v.empty() && M.first < t)
      {
        M.v.erase(M.v.begin());
        M.first++;
      }
      if(M.v.empty()) M.firstKnown = false;
    }
    else if(n == "resize")
    {
      Mat v = val(o.arg(2));
      size_t k = size_t(std::llabs(o.arg(1)) % 8);
      LIB(A.resize(so::TimeSize(k), v));
      M.v.resize(k, v);
    }
    else if(n == "first")
    {
      LIB(A.setFirstIndex(o.arg(1)));
      M.first = o.arg(1);
    }
    else if(n == "last")
    {
      LIB(A.setLastIndex(o.arg(1)));
      M.first = o.arg(1) - i64(M.v.size()) + 1;
    }
    else if(n == "clear")
    {
      LIB(A.clear());
      M.first += i64(M.v.size());
      M.v.clear();
    }
    else if(n == "reset")
    {
      LIB(A.reset());
      M.first = 0;
      M.v.clear();
    }
    else if(n == "construct")
    {
      i64 k = std::llabs(o.arg(1)) % 5;
      {
        Arm g;
        so::IndexedMatrixArray b(so::TimeSize(k), so::TimeIndex(o.arg(2)));
        A = b;
      }
      M.first = o.arg(2);
      M.v.assign(size_t(k), Mat());
    }
    else if(n == "assign")
    {
      LIB(a[i] = a[1 - i]);
      m[i] = m[1 - i];
      c.probe("array_copied");
    }
    else if(n == "copy")
    {
      Arm g;
      so::IndexedMatrixArray b(A);
      so::IndexedMatrixArray d;
      std::swap(b, d);
      a[1 - i] = d;
      m[1 - i] = m[i];
    }
    else if(n == "nomem") // an insertion of a new element meets a failing allocation
    {
      Mat v = val(o.arg(1));
      bool push = o.arg(2) & 1;
      i64 t = M.v.empty() ? o.arg(4) : M.last() + 1;
      alloc::failAt(1 + std::llabs(o.arg(3)) % 4);
      bool threw = false;
      try
      {
        if(push)
          LIB(A.pushBack(v));
        else
          LIB(A.setValue(v, t));
      }
      catch(const std::bad_alloc &)
      {
        threw = true;
      }
      bool fired = alloc::fired();
      alloc::failAt(0);
      c.check(threw == fired, "array-nomem", "a failed allocation was not reported");
      if(fired)
        c.fault("allocation_failure");
      else
      {
        if(M.v.empty() && !push) M.first = t;
        M.v.push_back(v);
      }
    }
    else if(n == "iset")
    {
      imV = val(o.arg(1));
      imK = o.arg(2);
      imSet = true;
      LIB(im.set(imV, imK));
    }
    else if(n == "ireset")
    {
      LIB(im.reset());
      imSet = false;
    }
    else if(n == "iindex")
    {
      if(!imSet)
      {
        c.check(refused([&]() { LIB(im.setIndex(o.arg(1))); }), "item", "the time of an unset value could be changed");
        return;
      }
      LIB(im.setIndex(o.arg(1)));
      imK = o.arg(1);
    }
    else if(n == "icopy")
    {
      Arm g;
      so::IndexedMatrix b(im);
      im.reset();
      im = b;
    }
  }
};
Case genC06(Rng & r, bool th)
{
  Case c;
  static const char * names[] = {"push", "set", "gap", "badget", "pop", "write", "after", "before", "resize", "first", "last", "clear",
                                 "reset", "construct", "assign", "copy", "nomem", "iset", "ireset", "iindex", "icopy", "many", "drain"};
  std::vector<double> w;
  for(size_t i = 0; i < sizeof(names) / sizeof(*names); ++i) w.push_back(i == 0 ? r.uni(1, 4) : i == 1 ? r.uni(0.5, 3) : (r.chance(0.4) ? 0. : r.uni(0.02, 1)));
  if(r.chance(0.9)) w[w.size() - 2] = 0; // long arrays are rare
  else w[w.size() - 2] = 0.05;
  // times far from zero are as good as any other
  auto far = [&](i64 lo, i64 hi) { return r.range(lo, hi) + (r.chance(0.06) ? (r.chance(0.3) ? -1 : 1) * (i64(1) << r.range(20, 45)) : 0); };
  i64 n = r.range(4, th ? 80 : 40);
  for(i64 k = 0; k < n; ++k)
  {
    int q = r.pick(w);
    std::string nm = names[q];
    i64 i = r.chance(0.75) ? 0 : 1;
    if(nm == "push" || nm == "set" || nm == "gap" || nm == "write")
      c.add(nm, {i, r.seed(), far(-6, 12), r.range(0, 2)});
    else if(nm == "badget")
      c.add(nm, {i, r.range(0, 7)});
    else if(nm == "after" || nm == "before")
      c.add(nm, {i, r.range(-3, 8)});
    else if(nm == "resize")
      c.add(nm, {i, r.range(0, 7), r.seed()});
    else if(nm == "first" || nm == "last")
      c.add(nm, {i, far(-20, 50)});
    else if(nm == "construct")
      c.add(nm, {i, r.range(0, 4), far(-5, 20)});
    else if(nm == "many")
      c.add(nm, {i, r.seed(), r.range(0, 599)});
    else if(nm == "drain")
      c.add(nm, {i, r.range(0, 599)});
    else if(nm == "nomem")
      c.add(nm, {i, r.seed(), r.range(0, 1), r.range(0, 3), r.range(-5, 9)});
    else if(nm == "iset")
      c.add(nm, {i, r.seed(), far(-3, 20)});
    else if(nm == "iindex")
      c.add(nm, {i, far(-3, 20)});
    else
      c.add(nm, {i});
  }
  return c;
}
void execC06(const Case & k, Ctx & c)
{
  ArrRig rig(c);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
    c.log("%s", k.ops[i].n.c_str());
    rig.same(0);
    rig.same(1);
    rig.sameItem();
  }
  c.nontrivial = rig.grown > 2;
}
Reg rC06({"C06", "containers", 120000, 1500000,
          "random histories of every container operation on two arrays and one timed value, with refused calls and failing allocations, "
          "compared after every operation with a map model; non-trivial: more than two insertions; distinct: different op list",
          "IndexedMatrixArrayT, IndexedMatrixT", "allocator", genC06, execC06});

// ================================================================ C07
struct Rec
{
  i64 t;
  std::vector<double> v;
};
double gval(Rng & r)
{
  switch(r.range(0, 5))
  {
    case 0:
      return 0.;
    case 1:
      return double(r.range(-1000, 1000));
    case 2:
      return r.uni(-1, 1) * std::pow(10., double(r.range(-12, 12)));
    case 3:
      return r.uni(-1, 1) * std::pow(10., double(r.range(-300, 300)));
    default:
      return r.uni(-10, 10);
  }
}
Mat recVal(i64 seed, i64 rows, i64 cols)
{
  Rng r{u64(seed)};
  Mat m(rows, cols);
  for(i64 i = 0; i < rows; ++i)
    for(i64 j = 0; j < cols; ++j) m(i, j) = gval(r);
  return m;
}
std::vector<double> flat(const Mat & m)
{
  std::vector<double> v;
  for(i64 i = 0; i < m.rows(); ++i)
    for(i64 j = 0; j < m.cols(); ++j) v.push_back(m(i, j));
  return v;
}
bool near6(double a, double b)
{
  return std::fabs(a - b) <= 6e-6 * std::max(std::fabs(a), std::fabs(b)) + 1e-320;
}
bool slurp(const std::string & p, std::string & s)
{
  std::ifstream f(p, std::ios::binary);
  if(!f.is_open()) return false;
  std::ostringstream o;
  o << f.rdbuf();
  s = o.str();
  return true;
}
std::vector<std::string> lines(const std::string & s, std::string & tail)
{
  std::vector<std::string> l;
  size_t b = 0;
  for(;;)
  {
    size_t e = s.find('\n', b);
    if(e == std::string::npos) break;
    l.push_back(s.substr(b, e - b));
    b = e + 1;
  }
  tail = s.substr(b);
  return l;
}
std::vector<double> numbers(const std::string & s)
{
  std::vector<double> v;
  const char * p = s.c_str();
  for(;;)
  {
    char * e;
    double d = std::strtod(p, &e);
    if(e == p) break;
    v.push_back(d);
    p = e;
  }
  return v;
}
std::string show(const std::vector<Rec> & r)
{
  std::string s;
  for(auto & x : r)
  {
    s += "(" + std::to_string(x.t) + ":";
    for(double d : x.v)
    {
      char b[40];
      std::snprintf(b, sizeof b, " %g", d);
      s += b;
    }
    s += ")";
    if(s.size() > 400) return s + "...";
  }
  return s;
}
template<typename ARR, typename MT>
struct FileRig
{
  Ctx & c;
  const Case & k;
  ARR a;
  i64 rows, cols;
  bool vectors;
  i64 first;
  std::vector<Rec> mem; // what memory must hold
  std::string path;
  bool exists = false;
  bool torn = false;         // the file may end in a partial record
  std::vector<Rec> filed;    // records the file must hold, complete, when not torn
  i64 saves = 0, reads = 0;
  FileRig(Ctx & cc, const Case & kk) : c(cc), k(kk)
  {
    rows = k.c("rows", 2);
    cols = k.c("cols", 1);
    vectors = k.c("vectors");
    path = io::scratch() + "/log.dat";
    first = k.c("first");
    LIB(a.setFirstIndex(first));
  }
  i64 next() const
  {
    return first + i64(mem.size());
  }
  void memSame(const char * when)
  {
    c.check(i64(LIB(a.size())) == i64(mem.size()), "file-memory", "%s: memory holds %lld elements, expected %zu", when, (long long)LIB(a.size()),
            mem.size());
    c.check(i64(LIB(a.getNextIndex())) == next(), "file-memory", "%s: next time %lld, expected %lld", when, (long long)LIB(a.getNextIndex()),
            (long long)next());
    for(size_t i = 0; i < mem.size(); ++i)
    {
      Mat g = LIB(Mat(a[mem[i].t]));
      c.check(flat(g) == mem[i].v, "file-memory", "%s: element of time %lld changed in memory", when, (long long)mem[i].t);
    }
  }
  void fileSame(const char * when)
  {
    std::string s, tail;
    if(!exists || torn) return;
    c.check(slurp(path, s), "file-content", "%s: the file does not exist", when);
    auto l = lines(s, tail);
    c.check(tail.empty(), "file-content", "%s: the file does not end with a complete record: '%s'", when, tail.c_str());
    c.check(l.size() == filed.size(), "file-content", "%s: the file has %zu records, expected %zu", when, l.size(), filed.size());
    for(size_t i = 0; i < l.size(); ++i)
    {
      auto n = numbers(l[i]);
      c.check(!n.empty() && n[0] == double(filed[i].t), "file-content", "%s: record %zu is '%s', expected time %lld", when, i, l[i].c_str(),
              (long long)filed[i].t);
      bool ok = n.size() == filed[i].v.size() + 1;
      for(size_t j = 0; ok && j + 1 < n.size(); ++j) ok = near6(n[j + 1], filed[i].v[j]);
      c.check(ok, "file-content", "%s: record %zu is '%s', expected %s", when, i, l[i].c_str(), show({filed[i]}).c_str());
    }
  }
  void save(bool clear, bool append, int kind, i64 par)
  {
    io::Plan p;
    static const int errs[] = {ENOSPC, EIO, EDQUOT, EFBIG};
    static const int oerrs[] = {ENOSPC, EMFILE, EACCES, EROFS};
    switch(kind)
    {
      case 1:
        p.openErr = oerrs[par & 3];
        break;
      case 2:
      case 3:
        p.writeBudget = std::llabs(par) / 4;
        p.writeErr = errs[par & 3];
        p.shortWrites = kind == 3;
        break;
      case 4:
        p.closeErr = errs[par & 3];
        break;
      case 5:
        p.shortWrites = true;
        p.eintrEvery = 2 + (par & 3);
        break;
    }
    if(kind) io::arm(p);
    bool threw = false;
    try
    {
      LIB(a.writeInFile(path, clear, append));
    }
    catch(const std::exception & e)
    {
      threw = true;
      c.log("save failed: %s", e.what());
    }
    io::Fired f = io::fired();
    if(kind) io::disarm();
    c.fault("disk_open_error", u64(kind ? f.openErr : 0));
    c.fault("disk_write_error", u64(kind ? f.writeErr : 0));
    c.fault("disk_close_error", u64(kind ? f.closeErr : 0));
    c.fault("short_write", u64(kind ? f.shortWrite : 0));
    c.fault("interrupted_call", u64(kind ? f.eintr : 0));
    bool hard = kind && (f.openErr || f.writeErr || f.closeErr);
    if(hard)
    {
      c.check(threw, "file-failure-reported", "saving did not report the failure (open %lld, write %lld, close %lld errors)", (long long)f.openErr,
              (long long)f.writeErr, (long long)f.closeErr);
      memSame("after a failed save");
      if(!f.openErr)
      {
        exists = true;
        torn = true;
      }
      return;
    }
    c.check(!threw, "file-save", "saving failed on a healthy disk");
    ++saves;
    if(!append || !exists)
    {
      filed.clear();
      torn = false;
    }
    exists = true;
    filed.insert(filed.end(), mem.begin(), mem.end());
    if(clear)
    {
      first = next();
      mem.clear();
    }
    memSame("after a save");
    fileSame("after a save");
  }
  bool contiguous() const
  {
    for(size_t i = 1; i < filed.size(); ++i)
      if(filed[i].t != filed[i - 1].t + 1) return false;
    return true;
  }
  // what the bytes of the file say: the complete records, and the pieces of an unterminated one
  void parse(const std::string & s, std::vector<Rec> & recs, Rec & part, bool & hasPart)
  {
    std::string tail;
    for(auto & l : lines(s, tail))
    {
      auto n = numbers(l);
      Rec r;
      r.t = n.empty() ? -12345 : i64(n[0]);
      if(!n.empty()) r.v.assign(n.begin() + 1, n.end());
      recs.push_back(r);
    }
    auto n = numbers(tail);
    hasPart = n.size() > 1;
    if(hasPart)
    {
      part.t = i64(n[0]);
      part.v.assign(n.begin() + 1, n.end());
    }
  }
  void read(const std::string & p, i64 cut, int kind, i64 par, bool stamps = true)
  {
    std::string s;
    if(!slurp(p, s)) return;
    std::vector<Rec> want;
    Rec part;
    bool hasPart = false;
    std::string q = io::scratch() + "/cut.dat";
    if(cut >= 0 && cut < i64(s.size()))
    {
      s.resize(size_t(cut));
      c.fault("crash_truncated_file");
    }
    if(!stamps) // the same records without their times, as other tools write them
    {
      std::string tail, o;
      auto l = lines(s, tail);
      for(auto & x : l) o += (x.find(' ') == std::string::npos ? std::string() : x.substr(x.find(' ') + 1)) + "\n";
      if(tail.find(' ') != std::string::npos) o += tail.substr(tail.find(' ') + 1);
      s = o;
    }
    {
      std::ofstream f(q, std::ios::binary);
      f << s;
    }
    if(torn && stamps) // a failed append may have left a second copy of some records: not one sequence any more
    {
      parse(s, want, part, hasPart);
      bool seq = true;
      for(size_t i = 1; i < want.size(); ++i) seq = seq && want[i].t == want[i - 1].t + 1;
      if(hasPart && !want.empty()) seq = seq && part.t == want.back().t + 1;
      want.clear();
      part = Rec();
      hasPart = false;
      if(!seq) return;
    }
    i64 avail = i64(s.size());
    io::Plan pl;
    if(kind == 1)
    {
      pl.readBudget = std::llabs(par) % (avail + 1);
      pl.readErr = EIO;
      pl.shortReads = true;
    }
    else if(kind == 2)
    {
      pl.shortReads = true;
      pl.eintrEvery = 0;
    }
    if(kind) io::arm(pl);
    ARR b;
    LIB(b.pushBack(MT(Mat::Ones(rows, cols)))); // reading replaces the previous content
    try
    {
      if constexpr(std::is_same<MT, so::Vector>::value)
      {
        if(vectors && (avail & 1)) // both overloads
          LIB(b.readVectorsFromFile(std::string(q), stamps));
        else if(vectors)
          LIB(b.readVectorsFromFile(q.c_str(), stamps));
        else
          LIB(b.readFromFile(q, rows, cols, stamps));
      }
      else
        LIB(b.readFromFile(q, rows, cols, stamps));
    }
    catch(const AssertFailure & e)
    {
      if(kind) io::disarm();
      c.fail("file-read", "reading asserted: %s", e.expr.c_str());
    }
    io::Fired f = io::fired();
    if(kind)
    {
      io::disarm();
      c.fault("disk_read_error", u64(f.readErr));
      c.fault("short_read", u64(f.shortRead));
    }
    else
      f = io::Fired();
    ++reads;
    if(stamps)
      parse(s, want, part, hasPart);
    else
    {
      std::string tail;
      i64 t = 0;
      for(auto & l : lines(s, tail)) want.push_back(Rec{t++, numbers(l)});
      part = Rec{t, numbers(tail)};
      hasPart = !part.v.empty();
    }
    i64 n = i64(LIB(b.size()));
    i64 most = i64(want.size()) + (hasPart && (vectors || i64(part.v.size()) == rows * cols) ? 1 : 0);
    i64 least = f.readErr ? 0 : i64(want.size());
    c.check(n >= least && n <= most, "file-read", "reading gave %lld records, the %lld bytes hold %zu complete ones%s", (long long)n, (long long)avail,
            want.size(), hasPart ? " and a piece" : "");
    if(hasPart) want.push_back(part);
    if(n) c.check(i64(LIB(b.getFirstIndex())) == want[0].t, "file-read", "first time read is %lld, written %lld", (long long)LIB(b.getFirstIndex()),
                  (long long)want[0].t);
    for(i64 i = 0; i < n; ++i)
    {
      Mat g = LIB(Mat(b[want[0].t + i]));
      auto v = flat(g);
      const Rec & w = want[size_t(i)];
      bool last = i == n - 1 && (f.readErr || i == i64(want.size()) - 1);
      bool ok = v.size() == w.v.size() || (last && vectors && v.size() < w.v.size() && !v.empty());
      for(size_t j = 0; ok && j < v.size(); ++j) ok = near6(v[j], w.v[j]) || (last && j + 1 == v.size() && (hasPart || f.readErr));
      c.check(ok, "file-read", "record %lld read as %s, the file holds %s", (long long)i, show({Rec{w.t, v}}).c_str(), show({w}).c_str());
      c.check(w.t == want[0].t + i, "file-read", "record %lld has time %lld", (long long)i, (long long)w.t);
    }
    c.fold(u64(n));
    unlink(q.c_str());
  }
  void apply(const Op & o)
  {
    if(o.n == "push")
    {
      i64 r = vectors ? (o.arg(1) == 9 ? 0 : 1 + std::llabs(o.arg(1)) % 4) : rows; // line-wise files may hold vectors of any size
      Mat v = recVal(o.arg(0), r, cols);
      LIB(a.pushBack(MT(v)));
      mem.push_back(Rec{next(), flat(v)});
    }
    else if(o.n == "save")
      save(o.arg(0), o.arg(1), int(o.arg(2)), o.arg(3));
    else if(o.n == "read")
    {
      if(!exists || (!torn && (filed.empty() || !contiguous())) ) return;
      if(torn)
      {
        // appended after a torn tail: not a sequence of records any more
        if(tornAppends) return;
      }
      read(path, o.arg(0) ? std::llabs(o.arg(1)) : -1, int(o.arg(2)), o.arg(3), !(o.arg(4) & 1));
    }
    else if(o.n == "text") // text of one value, kept or cut at any byte
    {
      i64 rr = 1 + std::llabs(o.arg(1)) % 6, cc = 1 + std::llabs(o.arg(2)) % 6;
      Mat m = recVal(o.arg(0), rr, cc);
      so::Vector v = m.col(0);
      std::string sm = LIB(so::tools::matrixToString(m)), sv = LIB(so::tools::vectorToString(v));
      auto ls = [](const std::string & s) {
        i64 n = 0;
        for(char ch : s) n += ch == '\n';
        return n;
      };
      c.check(ls(sm) == rr - 1 && ls(sv) == 0, "text", "%lldx%lld matrix written on %lld lines, vector on %lld", (long long)rr, (long long)cc,
              (long long)ls(sm) + 1, (long long)ls(sv) + 1);
      i64 cut = o.arg(3);
      size_t cm = cut < 0 ? sm.size() : size_t(cut) % (sm.size() + 1), cv = cut < 0 ? sv.size() : size_t(cut) % (sv.size() + 1);
      if(cm < sm.size() || cv < sv.size()) c.fault("cut");
      auto full = [&](const std::string & s, size_t at) { // numbers certainly whole in what is left
        i64 n = 0;
        bool in = false;
        for(size_t i = 0; i < at; ++i)
        {
          bool sp = s[i] == ' ' || s[i] == '\n';
          if(in && sp) ++n;
          in = !sp;
        }
        return at == s.size() && in ? n + 1 : n;
      };
      i64 fm = full(sm, cm), fv = full(sv, cv);
      so::Matrix g = LIB(so::tools::stringToMatrix(sm.substr(0, cm), rr, cc));
      c.check(g.rows() == rr && g.cols() == cc, "text", "matrix read back as %ldx%ld", long(g.rows()), long(g.cols()));
      so::Vector g1 = LIB(so::tools::stringToVector(sv.substr(0, cv), rr)), g2 = LIB(so::tools::stringToVector(sv.substr(0, cv)));
      c.check(g1.size() == rr, "text", "vector of %lld read back with %ld", (long long)rr, long(g1.size()));
      c.check(g2.size() >= fv && g2.size() <= fv + (cv < sv.size()), "text", "vector text with %lld numbers read back as %ld", (long long)fv,
              long(g2.size()));
      i64 q = 0;
      for(i64 i = 0; i < rr; ++i)
        for(i64 j = 0; j < cc; ++j, ++q)
        {
          if(q == fm) continue; // the number which is cut
          double w = q < fm ? m(i, j) : 0;
          c.check(q < fm ? near6(g(i, j), w) : g(i, j) == 0, "text", "element (%lld,%lld) read back as %.17g, written %.17g", (long long)i, (long long)j,
                  g(i, j), w);
        }
      for(i64 i = 0; i < rr; ++i)
      {
        if(i != fv) c.check(i < fv ? near6(g1(i), v(i)) : g1(i) == 0, "text", "component %lld read back as %.17g, written %.17g", (long long)i, g1(i), v(i));
        if(i < fv) c.check(near6(g2(i), v(i)), "text", "component %lld read back as %.17g, written %.17g", (long long)i, g2(i), v(i));
      }
      ++reads;
      c.fold(g.size() ? u64(fm) : 0);
    }
    else if(o.n == "crash") // the process dies: only the file survives, cut at some byte by the lost write-back
    {
      if(!exists) return;
      std::string s;
      if(!slurp(path, s)) return;
      i64 cut = std::llabs(o.arg(0)) % (i64(s.size()) + 1);
      {
        std::ofstream f(path, std::ios::binary);
        f << s.substr(0, size_t(cut));
      }
      if(cut < i64(s.size())) torn = true;
      c.fault("crash");
      LIB(a.reset());
      mem.clear();
      first = o.arg(1);
      LIB(a.setFirstIndex(first));
    }
  }
  bool tornAppends = false;
};
template<typename R>
void runFile(const Case & k, Ctx & c)
{
  R rig(c, k);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    if(k.ops[i].n == "save" && k.ops[i].arg(1) && rig.torn) rig.tornAppends = true;
    rig.apply(k.ops[i]);
    if(!rig.torn) rig.tornAppends = false;
    rig.memSame("afterwards");
    c.log("%s mem=%zu filed=%zu torn=%d", k.ops[i].n.c_str(), rig.mem.size(), rig.filed.size(), int(rig.torn));
    c.state(mix64(rig.mem.size() * 1000 + rig.filed.size(), u64(rig.torn) * 2 + u64(rig.exists)));
  }
  rig.fileSame("at the end");
  c.nontrivial = rig.saves + rig.reads > 1;
}
Case genC07(Rng & r, bool th)
{
  Case c;
  c.cfg["vecarr"] = r.chance(0.5);
  c.cfg["vectors"] = c.cfg["vecarr"] && r.chance(0.6);
  c.cfg["rows"] = r.range(1, 4);
  c.cfg["cols"] = c.cfg["vecarr"] ? 1 : r.range(1, 4);
  c.cfg["first"] = r.chance(0.5) ? 0 : r.chance(0.9) ? r.range(-20, 200) : r.range(-4, 4) + (r.chance(0.3) ? -1 : 1) * (i64(1) << r.range(20, 45));
  i64 n = r.range(3, th ? 40 : 16);
  double faulty = r.chance(0.3) ? 0. : r.uni(0.1, 0.7);
  bool periodic = r.chance(0.5); // clear + append all along
  for(i64 i = 0; i < n; ++i)
  {
    switch(r.pick({3., 2., 1.5, 0.15, 0.4}))
    {
      case 4:
        c.add("text", {r.seed(), r.range(0, 5), r.range(0, 5), r.chance(0.5) ? -1 : r.range(0, 400)});
        break;
      case 0:
        for(i64 q = r.chance(0.05) ? r.range(100, 300) : r.range(1, 6); q > 0; --q) c.add("push", {r.seed(), r.chance(0.04) ? 9 : r.range(0, 3)});
        break;
      case 1:
      {
        i64 kind = r.chance(faulty) ? r.range(1, 5) : 0;
        c.add("save", {periodic ? 1 : r.range(0, 1), periodic ? 1 : r.range(0, 1), kind, r.range(0, r.chance(0.5) ? 200 : 2000)});
        break;
      }
      case 2:
      {
        i64 kind = r.chance(faulty) ? r.range(1, 2) : 0;
        c.add("read", {r.range(0, 1), r.range(0, 300), kind, r.range(0, 400), r.chance(0.2)});
        break;
      }
      default:
        c.add("crash", {r.range(0, 500), r.range(0, 30)});
    }
  }
  return c;
}
Reg rC07({"C07", "files", 25000, 600000,
          "random histories of pushes, saves (clear/append) and reads on a real file in scratch space, with open/write/close/read errors at "
          "random byte budgets, short and interrupted calls, and crashes that cut the file at a random byte; non-trivial: at least two file "
          "operations; distinct: different op list",
          "IndexedMatrixArrayT file functions, libstdc++ streams, kernel files in a scratch directory", "fopen/fclose/read/write (faults injected)", genC07,
          [](const Case & k, Ctx & c) {
            if(k.c("vecarr"))
              runFile<FileRig<so::IndexedVectorArray, so::Vector>>(k, c);
            else
              runFile<FileRig<so::IndexedMatrixArray, so::Matrix>>(k, c);
          }});
} // namespace
} // namespace sim
