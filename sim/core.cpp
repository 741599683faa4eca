// Simulator core and driver (see core.hpp).  Built without coverage instrumentation.
#include "core.hpp"

#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <cstdlib>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <mutex>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace sim
{
// ====================================================================== random data
Vec rvec(u64 seed, i64 n, double scale)
{
  Rng r(mix64(seed, 11));
  Vec v(n);
  for(i64 i = 0; i < n; ++i) v[i] = r.uni(-scale, scale);
  return v;
}
Mat rmat(u64 seed, i64 rr, i64 c, double scale)
{
  Rng r(mix64(seed, 13));
  Mat m(rr, c);
  for(i64 j = 0; j < c; ++j)
    for(i64 i = 0; i < rr; ++i) m(i, j) = r.uni(-scale, scale);
  return m;
}
static Mat rorth(u64 seed, i64 n)
{
  Rng r(mix64(seed, 17));
  Mat m(n, n);
  for(i64 j = 0; j < n; ++j)
    for(i64 i = 0; i < n; ++i) m(i, j) = r.normal();
  for(i64 j = 0; j < n; ++j) // Gram-Schmidt, twice
  {
    for(int rep = 0; rep < 2; ++rep)
      for(i64 k = 0; k < j; ++k) m.col(j) -= m.col(k).dot(m.col(j)) * m.col(k);
    m.col(j) /= m.col(j).norm();
  }
  return m;
}
Mat rspd(u64 seed, i64 n, double lo, double hi)
{
  Mat q = rorth(mix64(seed, 19), n);
  Rng r(mix64(seed, 23));
  Vec d(n);
  for(i64 i = 0; i < n; ++i) d[i] = std::exp(r.uni(std::log(lo), std::log(hi)));
  Mat m = q * d.asDiagonal() * q.transpose();
  return 0.5 * (m + m.transpose().eval());
}
Mat rstable(u64 seed, i64 n, double gain)
{
  Mat u = rorth(mix64(seed, 29), n), v = rorth(mix64(seed, 31), n);
  Rng r(mix64(seed, 37));
  Vec d(n);
  for(i64 i = 0; i < n; ++i) d[i] = gain * r.uni(0.3, 1.);
  d[0] = gain;
  return u * d.asDiagonal() * v.transpose();
}
Eigen::Quaterniond rquat(u64 seed, double maxAngle)
{
  Rng r(mix64(seed, 41));
  Eigen::Vector3d a(r.normal(), r.normal(), r.normal());
  double nn = a.norm();
  if(nn < 1e-9) a = Eigen::Vector3d::UnitX();
  else a /= nn;
  double th = r.uni(-maxAngle, maxAngle);
  Eigen::Quaterniond q;
  q.w() = std::cos(th / 2);
  q.vec() = std::sin(th / 2) * a;
  return q;
}
Eigen::Matrix3d rrot(u64 seed, double maxAngle)
{
  return rquat(seed, maxAngle).toRotationMatrix();
}

// ====================================================================== trace text
std::string toText(const Case & c)
{
  std::ostringstream o;
  o << "property " << c.prop << "\nscenario " << c.scn << "\nseed " << c.seed << "\n";
  for(auto & k : c.cfg) o << "cfg " << k.first << " " << k.second << "\n";
  for(auto & op : c.ops)
  {
    o << "op " << op.n;
    for(i64 a : op.a) o << " " << a;
    o << "\n";
  }
  return o.str();
}
bool fromText(const std::string & s, Case & c)
{
  std::istringstream in(s);
  std::string line;
  while(std::getline(in, line))
  {
    std::istringstream l(line);
    std::string w;
    l >> w;
    if(w == "property")
      l >> c.prop;
    else if(w == "scenario")
      l >> c.scn;
    else if(w == "seed")
      l >> c.seed;
    else if(w == "cfg")
    {
      std::string k;
      i64 v;
      l >> k >> v;
      c.cfg[k] = v;
    }
    else if(w == "op")
    {
      Op op;
      l >> op.n;
      i64 v;
      while(l >> v) op.a.push_back(v);
      c.ops.push_back(op);
    }
  }
  return !c.prop.empty() && !c.scn.empty();
}

// ====================================================================== shared statistics (survive the child)
struct Named
{
  std::atomic<int> used;
  char name[60];
  std::atomic<u64> n;
};
struct Slot
{
  std::atomic<int> status; // 0 running, 1 ok, 2 violation, 3 harness error
  char key[96];
  char what[3000];
  u64 hash;
  i64 steps;
  u64 nontrivial;
  double simTime;
};
static const size_t NSTATE = 1u << 21;
static const size_t NCOV = 1u << 16;
struct Shared
{
  std::atomic<u64> evals, nontrivial, oracle, steps, states, covered, distinctCases, simMicros, detChecks;
  std::atomic<i64> minFail;
  std::atomic<int> harnessError;
  char harnessMsg[2000];
  Named faults[64], probes[96];
  Slot slot[64];
  std::atomic<u64> st[NSTATE];
  std::atomic<u64> cases[NSTATE];
  std::atomic<unsigned char> cov[NCOV];
};
static Shared * S = nullptr;
static bool statsOn = true;

static void bump(Named * t, int cap, const char * name, u64 n)
{
  if(!S || !statsOn) return;
  for(int i = 0; i < cap; ++i)
  {
    int u = t[i].used.load();
    if(u == 0)
    {
      int z = 0;
      if(t[i].used.compare_exchange_strong(z, 1))
      {
        std::snprintf(t[i].name, sizeof t[i].name, "%s", name);
        t[i].used.store(2);
        t[i].n += n;
        return;
      }
    }
    while(t[i].used.load() == 1)
    {
    }
    if(std::strncmp(t[i].name, name, sizeof(t[i].name) - 1) == 0)
    {
      t[i].n += n;
      return;
    }
  }
}
static bool insertHash(std::atomic<u64> * tab, u64 h)
{
  if(h == 0) h = 1;
  size_t p = size_t(h % NSTATE);
  for(int k = 0; k < 64; ++k)
  {
    u64 cur = tab[p].load(std::memory_order_relaxed);
    if(cur == h) return false;
    if(cur == 0)
    {
      u64 z = 0;
      if(tab[p].compare_exchange_strong(z, h)) return true;
      if(z == h) return false;
    }
    p = (p + 1) % NSTATE;
  }
  return false; // table full around here: undercounts
}
void Ctx::fault(const char * kind, u64 n)
{
  if(n) bump(S->faults, 64, kind, n);
}
void Ctx::probe(const char * name)
{
  bump(S->probes, 96, name, 1);
}
void Ctx::state(u64 h)
{
  if(statsOn && insertHash(S->st, mix64(h, 77))) S->states++;
}
static std::string vfmt(const char * fmt, va_list ap)
{
  char buf[2400];
  vsnprintf(buf, sizeof buf, fmt, ap);
  return buf;
}
void Ctx::log(const char * fmt, ...)
{
  if(!verbose) return;
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  std::printf("  [%d] %s\n", opIndex, s.c_str());
}
void Ctx::check(bool ok, const char * key, const char * fmt, ...)
{
  if(statsOn) S->oracle++;
  if(ok) return;
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{key, s};
}
void Ctx::fail(const char * key, const char * fmt, ...)
{
  va_list ap;
  va_start(ap, fmt);
  std::string s = vfmt(fmt, ap);
  va_end(ap);
  throw Violation{key, s};
}
void Ctx::closeM(const Mat & a, const Mat & b, double tol, const char * key, const char * what)
{
  if(statsOn) S->oracle++;
  fold(a);
  if(a.rows() != b.rows() || a.cols() != b.cols())
    fail(key, "%s: size %ldx%ld, expected %ldx%ld", what, long(a.rows()), long(a.cols()), long(b.rows()), long(b.cols()));
  double scale = 1;
  for(i64 i = 0; i < b.size(); ++i)
    if(std::isfinite(b.data()[i])) scale = std::max(scale, std::fabs(b.data()[i]));
  for(i64 j = 0; j < a.cols(); ++j)
    for(i64 i = 0; i < a.rows(); ++i)
    {
      double d = a(i, j) - b(i, j);
      if(!(std::fabs(d) <= tol * scale))
      {
        if(std::isnan(a(i, j)) && std::isnan(b(i, j))) continue;
        fail(key, "%s: element (%ld,%ld) is %.17g, expected %.17g (tolerance %.3g)", what, long(i), long(j), a(i, j),
             b(i, j), tol * scale);
      }
    }
}

// ====================================================================== arming, coverage, steps
static thread_local bool tlArmed = false;
static std::atomic<i64> gSteps{0};
static i64 gStepLimit = 100000000LL;
Arm::Arm() : prev(tlArmed)
{
  tlArmed = true;
}
Arm::~Arm()
{
  tlArmed = prev;
}
Disarm::Disarm() : prev(tlArmed)
{
  tlArmed = false;
}
Disarm::~Disarm()
{
  tlArmed = prev;
}
i64 steps()
{
  return gSteps.load();
}
void setStepLimit(i64 n)
{
  gStepLimit = n;
}
static Slot * gSlot = nullptr;
static void finishSlot(int status, const std::string & key, const std::string & what)
{
  if(gSlot)
  {
    std::snprintf(gSlot->key, sizeof gSlot->key, "%s", key.c_str());
    std::snprintf(gSlot->what, sizeof gSlot->what, "%s", what.c_str());
    gSlot->steps = gSteps;
    gSlot->status = status;
  }
}

// ====================================================================== scheduler
namespace sched
{
struct Th
{
  std::thread t;
  bool done = false;
};
static bool active = false;
static std::mutex mu;
static std::condition_variable cv;
static int current = -1;
static std::vector<Th> * ths = nullptr;
static std::vector<Slice> plan;
static size_t planPos = 0;
static i64 again = 0; // decisions left when the slices are repeated
static i64 quantum = 0;
static i64 switches = 0;
static u64 ihash = 0;
static thread_local int self = -1;

static int nextRunnable(int from)
{
  int n = int(ths->size());
  for(int k = 1; k <= n; ++k)
  {
    int c = (from + k) % n;
    if(!(*ths)[size_t(c)].done) return c;
  }
  return -1;
}
static void decide(int me) // choose who runs next; called by the running thread with mu held
{
  int nxt = -1;
  quantum = 1000000000LL;
  size_t tried = 0;
  while(planPos < plan.size() || (again > 0 && !plan.empty() && tried <= plan.size()))
  {
    if(planPos >= plan.size()) planPos = 0;
    ++tried;
    --again;
    Slice s = plan[planPos++];
    int n = int(ths->size());
    int c = ((s.thread % n) + n) % n;
    if((*ths)[size_t(c)].done) continue;
    nxt = c;
    quantum = s.quantum < 1 ? 1 : s.quantum;
    break;
  }
  if(nxt < 0)
  {
    nxt = (me >= 0 && !(*ths)[size_t(me)].done) ? me : nextRunnable(me < 0 ? 0 : me);
    if(me < 0 && nxt < 0) nxt = 0;
  }
  ihash = mix64(ihash, u64(nxt) * 1315423911u + u64(gSteps.load()));
  if(nxt != me && me >= 0) ++switches;
  current = nxt;
}
// a thread is not preempted while it holds a lock or initialises a static variable: only one thread runs at a time,
// another one waiting for the lock in the kernel would never be resumed
static thread_local int noPreempt = 0;
static void point() // instrumented point reached by the running thread
{
  if(noPreempt > 0) return;
  if(--quantum > 0) return;
  bool a = tlArmed;
  tlArmed = false;
  {
    std::unique_lock<std::mutex> l(mu);
    decide(self);
    if(current != self)
    {
      cv.notify_all();
      cv.wait(l, [] { return current == self; });
    }
  }
  tlArmed = a;
}
void yieldPoint()
{
  if(active && self >= 0)
  {
    quantum = 0;
    point();
  }
}
i64 run(const std::vector<std::function<void()>> & bodies, const std::vector<Slice> & slices, u64 & interleavingHash, i64 decisions)
{
  again = decisions;
  std::vector<Th> t(bodies.size());
  ths = &t;
  plan = slices;
  planPos = 0;
  switches = 0;
  ihash = 1;
  current = -1;
  active = true;
  for(size_t i = 0; i < bodies.size(); ++i)
  {
    t[i].t = std::thread([i, &bodies]() {
      self = int(i);
      {
        std::unique_lock<std::mutex> l(mu);
        cv.wait(l, [] { return current == self; });
      }
      bodies[i]();
      {
        std::unique_lock<std::mutex> l(mu);
        (*ths)[i].done = true;
        int nx = nextRunnable(int(i));
        if(nx >= 0)
        {
          decide(int(i));
          if(current == int(i)) current = nx;
        }
        else
          current = -2;
        cv.notify_all();
      }
    });
  }
  {
    std::unique_lock<std::mutex> l(mu);
    decide(-1);
    cv.notify_all();
  }
  for(auto & x : t) x.t.join();
  active = false;
  ths = nullptr;
  interleavingHash = ihash;
  return switches;
}
} // namespace sched

// ====================================================================== allocation seam
namespace alloc
{
static u64 fillSeed = 0;
static thread_local i64 countdown = 0;
static thread_local bool didFire = false;
static std::atomic<i64> armedCount{0};
void setFill(u64 s)
{
  fillSeed = s;
}
void failAt(i64 n)
{
  countdown = n;
  didFire = false;
}
bool fired()
{
  return didFire;
}
i64 count()
{
  return armedCount;
}
static bool shouldFail()
{
  armedCount.fetch_add(1, std::memory_order_relaxed);
  if(countdown > 0 && --countdown == 0)
  {
    didFire = true;
    return true;
  }
  return false;
}
static void fill(void * p, size_t n)
{
  if(!fillSeed) return;
  // deterministic garbage: large doubles, so that reading memory nobody wrote is visible
  static const double pats[4] = {1.2345e77, -9.876e55, 3.3e123, -7.7e33};
  double d = pats[fillSeed & 3];
  unsigned char * c = static_cast<unsigned char *>(p);
  size_t k = 0;
  for(; k + 8 <= n; k += 8) std::memcpy(c + k, &d, 8);
  for(; k < n; ++k) c[k] = 0x5a;
}
} // namespace alloc

// ====================================================================== I/O seam
namespace io
{
static Plan plan;
static bool on = false;
static Fired f;
static i64 calls = 0;
static std::string dir;
void arm(const Plan & p)
{
  plan = p;
  f = Fired();
  calls = 0;
  on = true;
}
void disarm()
{
  on = false;
}
Fired fired()
{
  return f;
}
std::string scratch()
{
  return dir;
}
static bool live()
{
  return on && tlArmed;
}
} // namespace io

namespace rnd
{
static u64 seed_ = 0x1234567, n_ = 0;
void setSeed(u64 s)
{
  seed_ = s;
  n_ = 0;
}
u64 draws()
{
  return n_;
}
} // namespace rnd
} // namespace sim

// ====================================================================== interposed symbols
extern "C" void __sanitizer_cov_trace_pc()
{
  if(!sim::tlArmed) return;
  sim::i64 n = ++sim::gSteps;
  if(sim::S && sim::statsOn)
  {
    uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0)) - reinterpret_cast<uintptr_t>(&__sanitizer_cov_trace_pc);
    size_t b = size_t(sim::mix64(pc) % sim::NCOV);
    if(!sim::S->cov[b].load(std::memory_order_relaxed))
    {
      if(!sim::S->cov[b].exchange(1)) sim::S->covered++;
    }
  }
  if(sim::sched::active && sim::sched::self >= 0) sim::sched::point();
  if(n > sim::gStepLimit)
  {
    sim::tlArmed = false;
    sim::finishSlot(2, "no-progress", "a library call did not return within the step budget");
    _exit(0);
  }
}

extern "C" int __real___cxa_guard_acquire(void * g);
extern "C" void __real___cxa_guard_release(void * g);
extern "C" void __real___cxa_guard_abort(void * g);
extern "C" int __wrap___cxa_guard_acquire(void * g)
{
  ++sim::sched::noPreempt;
  int r = __real___cxa_guard_acquire(g);
  if(!r) --sim::sched::noPreempt;
  return r;
}
extern "C" void __wrap___cxa_guard_release(void * g)
{
  __real___cxa_guard_release(g);
  --sim::sched::noPreempt;
}
extern "C" void __wrap___cxa_guard_abort(void * g)
{
  __real___cxa_guard_abort(g);
  --sim::sched::noPreempt;
}
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t * m);
extern "C" int __real_pthread_mutex_trylock(pthread_mutex_t * m);
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t * m);
extern "C" int __real_pthread_once(pthread_once_t * o, void (*f)());
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t * m)
{
  int r = __real_pthread_mutex_lock(m);
  if(!r) ++sim::sched::noPreempt;
  return r;
}
extern "C" int __wrap_pthread_mutex_trylock(pthread_mutex_t * m)
{
  int r = __real_pthread_mutex_trylock(m);
  if(!r) ++sim::sched::noPreempt;
  return r;
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t * m)
{
  --sim::sched::noPreempt;
  return __real_pthread_mutex_unlock(m);
}
extern "C" int __wrap_pthread_once(pthread_once_t * o, void (*f)())
{
  ++sim::sched::noPreempt;
  int r = __real_pthread_once(o, f);
  --sim::sched::noPreempt;
  return r;
}

namespace simhook
{
[[noreturn]] void assertFailed(const char * expr, const char * file, long line)
{
  sim::Disarm d;
  throw sim::AssertFailure{expr ? expr : "", file ? file : "", line};
}
}
namespace boost
{
void assertion_failed(char const * expr, char const *, char const * file, long line)
{
  simhook::assertFailed(expr, file, line);
}
void assertion_failed_msg(char const * expr, char const * msg, char const *, char const * file, long line)
{
  (void)msg;
  simhook::assertFailed(expr, file, line);
}
}

extern "C" void * __real_malloc(size_t n);
extern "C" void * __wrap_malloc(size_t n)
{
  if(sim::tlArmed)
  {
    if(sim::alloc::shouldFail())
    {
      errno = ENOMEM;
      return nullptr;
    }
    void * p = __real_malloc(n);
    if(p) sim::alloc::fill(p, n);
    return p;
  }
  return __real_malloc(n);
}
static void * simNew(size_t n, bool nothrow)
{
  if(sim::tlArmed && sim::alloc::shouldFail())
  {
    if(nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void * p = __real_malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  if(sim::tlArmed) sim::alloc::fill(p, n);
  return p;
}
void * operator new(size_t n)
{
  return simNew(n, false);
}
void * operator new[](size_t n)
{
  return simNew(n, false);
}
void * operator new(size_t n, const std::nothrow_t &) noexcept
{
  return simNew(n, true);
}
void * operator new[](size_t n, const std::nothrow_t &) noexcept
{
  return simNew(n, true);
}
void operator delete(void * p) noexcept
{
  std::free(p);
}
void operator delete[](void * p) noexcept
{
  std::free(p);
}
void operator delete(void * p, size_t) noexcept
{
  std::free(p);
}
void operator delete[](void * p, size_t) noexcept
{
  std::free(p);
}

extern "C" FILE * fopen(const char * path, const char * mode)
{
  typedef FILE * (*F)(const char *, const char *);
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fopen"));
  if(sim::io::live() && sim::io::plan.openErr && sim::io::plan.openSkip-- <= 0)
  {
    sim::io::f.openErr++;
    errno = sim::io::plan.openErr;
    return nullptr;
  }
  sim::Disarm d;
  return real(path, mode);
}
extern "C" int fclose(FILE * fp)
{
  typedef int (*F)(FILE *);
  static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "fclose"));
  bool fail = sim::io::live() && sim::io::plan.closeErr;
  sim::Disarm d;
  int r = real(fp);
  if(fail)
  {
    sim::io::f.closeErr++;
    errno = sim::io::plan.closeErr;
    return EOF;
  }
  return r;
}
static ssize_t gate(size_t n, bool rd, size_t & allowed)
{
  using namespace sim;
  io::calls++;
  allowed = n;
  if(io::plan.eintrEvery && io::calls % io::plan.eintrEvery == 0)
  {
    io::f.eintr++;
    errno = EINTR;
    return -1;
  }
  if(!rd)
  {
    if(io::plan.shortWrites && n > 3)
    {
      allowed = 1 + size_t(mix64(u64(io::calls)) % (n - 1));
      io::f.shortWrite++;
    }
    if(io::plan.writeBudget >= 0)
    {
      if(io::plan.writeBudget == 0)
      {
        io::f.writeErr++;
        errno = io::plan.writeErr ? io::plan.writeErr : ENOSPC;
        return -1;
      }
      if(i64(allowed) > io::plan.writeBudget) allowed = size_t(io::plan.writeBudget);
    }
  }
  else
  {
    if(io::plan.shortReads && n > 3)
    {
      allowed = 1 + size_t(mix64(u64(io::calls)) % 7);
      if(allowed > n) allowed = n;
      io::f.shortRead++;
    }
    if(io::plan.readBudget >= 0)
    {
      if(io::plan.readBudget == 0)
      {
        io::f.readErr++;
        errno = io::plan.readErr ? io::plan.readErr : EIO;
        return -1;
      }
      if(i64(allowed) > io::plan.readBudget) allowed = size_t(io::plan.readBudget);
    }
  }
  return 0;
}
extern "C" ssize_t write(int fd, const void * b, size_t n)
{
  if(!sim::io::live() || fd <= 2) return syscall(SYS_write, fd, b, n);
  size_t al;
  if(gate(n, false, al) < 0) return -1;
  ssize_t r = syscall(SYS_write, fd, b, al);
  if(r > 0 && sim::io::plan.writeBudget >= 0) sim::io::plan.writeBudget -= r;
  return r;
}
extern "C" ssize_t writev(int fd, const struct iovec * v, int c)
{
  if(!sim::io::live() || fd <= 2) return syscall(SYS_writev, fd, v, c);
  size_t n = 0, al;
  for(int i = 0; i < c; ++i) n += v[i].iov_len;
  if(gate(n, false, al) < 0) return -1;
  ssize_t tot = 0;
  for(int i = 0; i < c && al > 0; ++i)
  {
    size_t k = v[i].iov_len < al ? v[i].iov_len : al;
    if(!k) continue;
    ssize_t r = syscall(SYS_write, fd, v[i].iov_base, k);
    if(r < 0) return tot ? tot : r;
    tot += r;
    al -= size_t(r);
  }
  if(tot > 0 && sim::io::plan.writeBudget >= 0) sim::io::plan.writeBudget -= tot;
  return tot;
}
extern "C" ssize_t read(int fd, void * b, size_t n)
{
  if(!sim::io::live() || fd <= 2) return syscall(SYS_read, fd, b, n);
  size_t al;
  if(gate(n, true, al) < 0) return -1;
  ssize_t r = syscall(SYS_read, fd, b, al);
  if(r > 0 && sim::io::plan.readBudget >= 0) sim::io::plan.readBudget -= r;
  return r;
}
// std::random_device
namespace simrnd
{
unsigned get()
{
  return unsigned(sim::mix64(sim::rnd::seed_, sim::rnd::n_++) >> 32);
}
}
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void *)
{
  return simrnd::get();
}

// ====================================================================== driver
namespace sim
{
static std::map<std::string, std::vector<Scenario>> & registry()
{
  static std::map<std::string, std::vector<Scenario>> r;
  return r;
}
void addScenario(const Scenario & s)
{
  registry()[s.prop].push_back(s);
}
static const Scenario * findScn(const std::string & prop, const std::string & name)
{
  for(auto & s : registry()[prop])
    if(name == s.name) return &s;
  return nullptr;
}

struct Result
{
  int status = 0; // 1 ok, 2 violation, 3 harness error
  std::string key, what;
  u64 hash = 0;
  i64 steps = 0;
};

static void rmTree(const std::string & d)
{
  if(d.find("/simscratch.") == std::string::npos) return;
  DIR * dp = opendir(d.c_str());
  if(!dp) return;
  while(dirent * e = readdir(dp))
  {
    std::string n = e->d_name;
    if(n == "." || n == "..") continue;
    std::string p = d + "/" + n;
    struct stat st;
    if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
      rmTree(p);
    else
      unlink(p.c_str());
  }
  closedir(dp);
  rmdir(d.c_str());
}
static std::string gScratchRoot;

// runs one case in this process, filling the slot
static void runHere(const Case & c, Slot * slot, bool verbose)
{
  gSlot = slot;
  gSteps = 0;
  const Scenario * s = findScn(c.prop, c.scn);
  Ctx ctx;
  ctx.verbose = verbose;
  alloc::setFill(mix64(c.seed, 5) | 4);
  rnd::setSeed(mix64(c.seed, 7));
  int status = 1;
  std::string key, what;
  char where[64];
  try
  {
    s->exec(c, ctx);
  }
  catch(const Violation & v)
  {
    status = 2;
    key = v.key;
    what = v.what;
  }
  catch(const AssertFailure & a)
  {
    status = 2;
    key = "assertion";
    what = "a valid history tripped a checked-build assertion: " + a.expr + " at " + a.file + ":" + std::to_string(a.line);
  }
  catch(const std::bad_alloc &)
  {
    status = 2;
    key = "exception";
    what = "unexpected std::bad_alloc";
  }
  catch(const std::exception & e)
  {
    status = 2;
    key = "exception";
    what = std::string("unexpected exception: ") + e.what();
  }
  tlArmed = false;
  if(status == 2 && ctx.opIndex >= 0)
  {
    std::snprintf(where, sizeof where, " [at trace op %d]", ctx.opIndex);
    what += where;
  }
  for(char ch : key) ctx.fold(u64(ch));
  slot->hash = ctx.hash;
  slot->nontrivial = ctx.nontrivial;
  slot->simTime = ctx.simTime;
  if(statsOn)
  {
    S->steps += u64(gSteps.load());
    S->simMicros += u64(ctx.simTime * 1e6);
  }
  finishSlot(status, key, what);
}

static Result runForked(const Case & c, int slotIdx, bool stats)
{
  Slot * slot = &S->slot[slotIdx];
  slot->status = 0;
  slot->key[0] = slot->what[0] = 0;
  slot->hash = 0;
  std::fflush(stdout);
  std::fflush(stderr);
  pid_t p = fork();
  if(p == 0)
  {
    statsOn = stats;
    io::dir = gScratchRoot + "/w" + std::to_string(slotIdx);
    rmTree(io::dir);
    mkdir(io::dir.c_str(), 0700);
    int dn = open("/dev/null", O_WRONLY);
    if(dn >= 0)
    {
      dup2(dn, 1);
      dup2(dn, 2);
    }
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = 60; // a run takes milliseconds of processor time: this one does not end
    rl.rlim_max = 70;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = size_t(2) << 30;
    setrlimit(RLIMIT_DATA, &rl);
    alarm(600);
    runHere(c, slot, false);
    _exit(0);
  }
  int st = 0;
  if(p < 0 || waitpid(p, &st, 0) < 0)
  {
    Result r;
    r.status = 3;
    r.what = "fork/wait failed";
    return r;
  }
  Result r;
  if(WIFSIGNALED(st) || slot->status == 0)
  {
    int sg = WIFSIGNALED(st) ? WTERMSIG(st) : 0;
    if(sg == SIGALRM || sg == SIGKILL)
    {
      r.status = 3;
      r.key = "wall";
      r.what = "execution exceeded the wall-clock guard or was killed";
      return r;
    }
    if(sg == SIGXCPU)
    {
      r.status = 2;
      r.key = "hang";
      r.what = "the execution does not end";
      r.hash = mix64(u64(sg), 0xdead);
      return r;
    }
    r.status = 2;
    r.key = "crash";
    r.what = "the process died: " + std::string(sg ? strsignal(sg) : "exit without result");
    r.hash = mix64(u64(sg), 0xdead);
    return r;
  }
  r.status = slot->status;
  r.key = slot->key;
  r.what = slot->what;
  r.hash = slot->hash;
  r.steps = slot->steps;
  return r;
}

struct Plan
{
  const Scenario * s;
  i64 from, to;
};
static std::vector<Plan> plans;
static i64 total = 0;
static u64 gSeed = 1;
static bool gThorough = false;

static Case makeCase(const std::string & prop, i64 i)
{
  for(auto & p : plans)
    if(i >= p.from && i < p.to)
    {
      u64 h = 0;
      for(const char * q = p.s->name; *q; ++q) h = mix64(h, u64(*q));
      for(const char * q = prop.c_str(); *q; ++q) h = mix64(h, u64(*q));
      u64 cs = mix64(mix64(gSeed, h), u64(i - p.from));
      Rng r(cs);
      Case c = p.s->gen(r, gThorough);
      c.prop = prop;
      c.scn = p.s->name;
      c.seed = cs;
      return c;
    }
  throw std::logic_error("case index");
}

static std::string jesc(const std::string & s)
{
  std::string o;
  for(char c : s)
  {
    if(c == '"' || c == '\\')
    {
      o += '\\';
      o += c;
    }
    else if(c == '\n')
      o += "\\n";
    else if(static_cast<unsigned char>(c) < 32)
      o += ' ';
    else
      o += c;
  }
  return o;
}

static Case minimise(Case c, const std::string & key, int & tries)
{
  auto start = std::chrono::steady_clock::now();
  auto fails = [&](const Case & d) {
    if(++tries > 3000 || std::chrono::steady_clock::now() - start > std::chrono::seconds(60)) return false;
    Result r = runForked(d, 60, false);
    return r.status == 2 && r.key == key;
  };
  bool progress = true;
  while(progress && tries < 3000)
  {
    progress = false;
    size_t chunk = c.ops.size() / 2;
    if(chunk < 1) chunk = 1;
    while(true)
    {
      for(size_t at = 0; at < c.ops.size();)
      {
        Case d = c;
        size_t e = std::min(d.ops.size(), at + chunk);
        d.ops.erase(d.ops.begin() + long(at), d.ops.begin() + long(e));
        if(fails(d))
        {
          c = d;
          progress = true;
        }
        else
          at += chunk;
      }
      if(chunk == 1) break;
      chunk /= 2;
    }
    // shrink arguments
    for(size_t o = 0; o < c.ops.size(); ++o)
      for(size_t a = 0; a < c.ops[o].a.size(); ++a)
      {
        i64 v = c.ops[o].a[a];
        for(i64 t : {i64(0), i64(1), v / 2})
        {
          if(std::llabs(t) >= std::llabs(v)) continue;
          Case d = c;
          d.ops[o].a[a] = t;
          if(fails(d))
          {
            c = d;
            progress = true;
            break;
          }
        }
      }
  }
  return c;
}

struct Known
{
  std::string key, text, needle;
};
static std::vector<Known> known;
static const Known * matchKnown(const Result & r)
{
  for(auto & k : known)
    if(k.key == r.key && (k.needle.empty() || r.what.find(k.needle) != std::string::npos)) return &k;
  return nullptr;
}
static void loadKnown(const std::string & file, const std::string & prop)
{
  // finding: property=C05 key=<key> match=<substring with _ for spaces> | text
  std::ifstream f(file);
  std::string l;
  while(std::getline(f, l))
  {
    if(l.compare(0, 9, "finding: ") != 0) continue;
    std::istringstream s(l.substr(9));
    std::string p, k, m, rest;
    s >> p >> k >> m;
    std::getline(s, rest);
    if(p != "property=" + prop) continue;
    Known kn;
    kn.key = k.substr(4);
    kn.needle = m.size() > 6 ? m.substr(6) : "";
    for(char & ch : kn.needle)
      if(ch == '_') ch = ' ';
    size_t bar = rest.find('|');
    kn.text = bar == std::string::npos ? rest : rest.substr(bar + 2);
    known.push_back(kn);
  }
}

static std::string slurp(const std::string & p)
{
  std::ifstream f(p);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}

static int replay(const std::string & file, bool verbose)
{
  std::string txt = slurp(file);
  Case c;
  if(!fromText(txt, c) || !findScn(c.prop, c.scn))
  {
    std::fprintf(stderr, "cannot parse %s\n", file.c_str());
    return 2;
  }
  u64 want = 0;
  bool has = false, unrepeatable = false;
  std::istringstream in(txt);
  std::string l;
  while(std::getline(in, l))
    if(l == "expected-unrepeatable")
      unrepeatable = true;
    else     if(l.compare(0, 14, "expected-hash ") == 0)
    {
      want = std::strtoull(l.c_str() + 14, nullptr, 16);
      has = true;
    }
  if(verbose)
  {
    io::dir = gScratchRoot + "/v";
    mkdir(io::dir.c_str(), 0700);
    runHere(c, &S->slot[61], true);
    std::printf("status %d key %s: %s\n", int(S->slot[61].status), S->slot[61].key, S->slot[61].what);
  }
  Result r = runForked(c, 60, false);
  std::printf("replay status=%d key=%s hash=%016llx %s\n", r.status, r.key.c_str(), (unsigned long long)r.hash, r.what.c_str());
  if(r.status == 3) return 2;
  for(int k = 0; k < 12 && unrepeatable; ++k)
  {
    Result q = runForked(c, 60, false);
    if(q.status == 2 || q.hash != r.hash) return 1;
  }
  if(has && r.hash != want) return r.status == 2 ? 3 : 0;
  return r.status == 2 ? 1 : 0;
}

static int runAll(int argc, char ** argv)
{
  std::string prop, evidence, replayDir = ".", knownFile, level = "exploration";
  int workers = 8;
  i64 runsOverride = 0, only = -1;
  double maxWall = 0;
  bool hashes = false;
  for(int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if(a == "--prop")
      prop = nx();
    else if(a == "--seed")
      gSeed = std::strtoull(nx().c_str(), nullptr, 10);
    else if(a == "--thorough")
      gThorough = true;
    else if(a == "--workers")
      workers = std::atoi(nx().c_str());
    else if(a == "--evidence")
      evidence = nx();
    else if(a == "--replays")
      replayDir = nx();
    else if(a == "--known")
      knownFile = nx();
    else if(a == "--runs")
      runsOverride = std::atoll(nx().c_str());
    else if(a == "--only")
      only = std::atoll(nx().c_str());
    else if(a == "--max-wall")
      maxWall = std::atof(nx().c_str());
    else if(a == "--hashes")
      hashes = true;
    else if(a == "--replay")
      return replay(nx(), false);
    else if(a == "--show")
      return replay(nx(), true);
    else if(a == "--list")
    {
      for(auto & r : registry())
        for(auto & s : r.second) std::printf("%s %s %lld %lld\n", s.prop, s.name, (long long)s.quickRuns, (long long)s.thoroughRuns);
      return 0;
    }
  }
  if(registry()[prop].empty())
  {
    std::fprintf(stderr, "unknown property '%s'\n", prop.c_str());
    return 2;
  }
  if(!knownFile.empty()) loadKnown(knownFile, prop);
  for(auto & s : registry()[prop])
  {
    i64 n = gThorough ? s.thoroughRuns : s.quickRuns;
    if(runsOverride) n = runsOverride;
    plans.push_back(Plan{&s, total, total + n});
    total += n;
  }
  if(only >= 0)
  {
    Case c = makeCase(prop, only);
    std::printf("%s", toText(c).c_str());
    io::dir = gScratchRoot + "/v";
    mkdir(io::dir.c_str(), 0700);
    runHere(c, &S->slot[61], true);
    std::printf("status %d key %s: %s hash %016llx steps %lld\n", int(S->slot[61].status), S->slot[61].key, S->slot[61].what,
                (unsigned long long)S->slot[61].hash, (long long)S->slot[61].steps);
    return 0;
  }
  auto t0 = std::chrono::steady_clock::now();
  auto wall = [&]() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  S->minFail = total;
  std::printf("simulating property=%s seed=%llu tier=%s runs=%lld workers=%d\n", prop.c_str(), (unsigned long long)gSeed,
              gThorough ? "thorough" : "quick", (long long)total, workers);
  std::fflush(stdout);
  // interleave the scenarios of the property so that an early stop still covers all of them
  std::vector<pid_t> pids;
  u64 * hashTab = nullptr;
  if(hashes) hashTab = static_cast<u64 *>(mmap(nullptr, size_t(total) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::atomic<u64> * knownHits =
      static_cast<std::atomic<u64> *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for(int w = 0; w < workers; ++w)
  {
    pid_t p = fork();
    if(p == 0)
    {
      for(i64 i = w; i < total; i += workers)
      {
        if(i > S->minFail) break;
        if(S->harnessError) break;
        if(maxWall > 0 && wall() > maxWall) break;
        Case c = makeCase(prop, i);
        u64 ch = 0;
        for(char x : toText(c)) ch = mix64(ch, u64(x));
        // one case in 40 runs twice: the recorded history must come out identical
        bool twice = (i % 40 == 7);
        u64 h1 = 0;
        if(twice)
        {
          Result a = runForked(c, w, false);
          h1 = a.hash;
        }
        Result r = runForked(c, w, true);
        if(hashTab) hashTab[i] = r.hash;
        if(twice)
        {
          S->detChecks++;
          if(r.status != 3 && h1 != r.hash)
          {
            // every seam is seeded, so what differs comes from the code: reported below
            i64 cur = S->minFail;
            while(i < cur && !S->minFail.compare_exchange_weak(cur, i))
            {
            }
          }
        }
        S->evals++;
        if(r.status == 3)
        {
          S->harnessError = 1;
          std::snprintf(S->harnessMsg, sizeof S->harnessMsg, "case %lld: %s", (long long)i, r.what.c_str());
          break;
        }
        if(S->slot[w].nontrivial && insertHash(S->cases, ch)) S->distinctCases++;
        if(r.status == 2)
        {
          const Known * k = matchKnown(r);
          if(k)
          {
            knownHits[k - &known[0]]++;
            continue;
          }
          i64 cur = S->minFail;
          while(i < cur && !S->minFail.compare_exchange_weak(cur, i))
          {
          }
        }
      }
      _exit(0);
    }
    pids.push_back(p);
  }
  for(pid_t p : pids)
  {
    int st;
    waitpid(p, &st, 0);
    if(WIFSIGNALED(st) && !S->harnessError)
    {
      S->harnessError = 1;
      std::snprintf(S->harnessMsg, sizeof S->harnessMsg, "a worker died with signal %d", WTERMSIG(st));
    }
  }
  double simWall = wall();
  if(hashes)
  {
    for(i64 i = 0; i < total; ++i) std::printf("H %lld %016llx\n", (long long)i, (unsigned long long)hashTab[i]);
  }
  int rc = 0;
  i64 violations = 0;
  std::string replayPath, vtext;
  if(S->minFail < total)
  {
    i64 i = S->minFail;
    Case c = makeCase(prop, i);
    Result r1 = runForked(c, 60, false);
    Result r2 = r1.key == "hang" ? r1 : runForked(c, 60, false);
    bool exact = r1.status == 2 && r2.status == 2 && r1.hash == r2.hash && r1.key == r2.key;
    bool differs = false;
    if(!exact)
    {
      // the same seed gives different executions of the code
      Result bad = r1.status == 2 ? r1 : r2;
      differs = r1.status == 2 || r2.status == 2 || r1.hash != r2.hash;
      for(int k = 0; k < 6 && !differs; ++k)
      {
        Result r3 = runForked(c, 60, false);
        if(r3.status == 2) bad = r3;
        differs = r3.status == 2 || r3.hash != r1.hash;
      }
      r1 = bad;
      if(r1.status != 2)
      {
        r1.key = "not-repeatable";
        r1.what = "two executions of the same history with the same seed differ";
      }
    }
    if(!exact && !differs)
    {
      std::fprintf(stderr, "ERROR: violation of case %lld does not reproduce (%s / %s)\n", (long long)i, r1.what.c_str(), r2.what.c_str());
      rc = 2;
    }
    else
    {
      int tries = 0;
      Case m = exact && r1.key != "hang" ? minimise(c, r1.key, tries) : c;
      Result rm = exact && r1.key != "hang" ? runForked(m, 60, false) : r1;
      if(rm.status != 2 || rm.key != r1.key)
      {
        m = c;
        rm = r1;
      }
      mkdir(replayDir.c_str(), 0755);
      replayPath = replayDir + "/" + prop + "-s" + std::to_string(gSeed) + "-c" + std::to_string(i) + ".trace";
      {
        std::ofstream o(replayPath);
        o << toText(m) << "# violation " << rm.key << ": " << rm.what << "\n";
        char hb[32];
        std::snprintf(hb, sizeof hb, "%016llx", (unsigned long long)rm.hash);
        if(exact)
          o << "expected-hash " << hb << "\n";
        else
          o << "expected-unrepeatable\n";
        o << "# found by case " << i << " of seed " << gSeed << "; " << c.ops.size() << " ops minimised to " << m.ops.size() << " in "
          << tries << " executions; replay with: /verif/check replay " << replayPath << "\n";
      }
      // fresh process
      std::fflush(stdout);
      pid_t p = fork();
      if(p == 0)
      {
        execl("/proc/self/exe", "sim", "--replay", replayPath.c_str(), (char *)nullptr);
        _exit(99);
      }
      int st = 0;
      waitpid(p, &st, 0);
      if(WIFEXITED(st) && WEXITSTATUS(st) == 3)
        std::printf("note: another process reproduces the violation with another history: the code depends on memory addresses\n");
      if(!WIFEXITED(st) || (WEXITSTATUS(st) != 1 && WEXITSTATUS(st) != 3))
      {
        std::fprintf(stderr, "ERROR: fresh-process replay of %s did not reproduce\n", replayPath.c_str());
        rc = 2;
      }
      else
      {
        violations = 1;
        vtext = rm.key + ": " + rm.what;
        std::printf("violation %s (case %lld, %zu ops, minimised to %zu)\n", vtext.c_str(), (long long)i, c.ops.size(), m.ops.size());
        for(auto & op : m.ops)
        {
          std::string l = op.n;
          for(i64 a : op.a) l += " " + std::to_string(a);
          std::printf("    %s\n", l.c_str());
        }
        std::printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayPath.c_str());
        rc = 1;
      }
    }
  }
  else if(S->harnessError)
  {
    std::fprintf(stderr, "ERROR: %s\n", S->harnessMsg);
    rc = 2;
  }
  for(size_t k = 0; k < known.size(); ++k)
    std::printf("KNOWN-FINDING: property=%s %s (seen in %llu runs)\n", prop.c_str(), known[k].text.c_str(),
                (unsigned long long)knownHits[k].load());
  if(!evidence.empty())
  {
    std::ofstream o(evidence);
    double perHour = simWall > 0 ? double(S->evals) / simWall * 3600. : 0;
    o << "{\n \"property\": \"" << prop << "\",\n \"tier\": \"" << (gThorough ? "thorough" : "quick") << "\",\n \"seed\": " << gSeed
      << ",\n \"level\": \"" << level << "\",\n \"wall_s\": " << wall() << ",\n \"violations\": " << violations << ",\n";
    o << " \"coverage\": {\n  \"evaluations\": " << S->evals << ",\n  \"distinct_nontrivial\": " << S->distinctCases << ",\n  \"rule\": \"";
    for(auto & s : registry()[prop]) o << jesc(std::string(s.name) + ": " + s.rule) << " ";
    o << "\",\n  \"oracle_checks\": " << S->oracle << ",\n  \"seeds_per_hour\": " << (long long)perHour << ",\n  \"simulated_seconds\": "
      << double(S->simMicros) * 1e-6 << ",\n  \"instrumented_steps\": " << S->steps << ",\n  \"library_blocks_reached\": " << S->covered
      << ",\n  \"distinct_states\": " << S->states
      << ",\n  \"distinct_states_measure\": \"64-bit hashes of the scenario's abstract state (queue shape, pending sets, mode flags; for threads the sequence of (thread, step) switch decisions)\",\n  \"determinism_double_runs\": "
      << S->detChecks << ",\n  \"faults_fired\": {";
    bool first = true;
    for(auto & n : S->faults)
      if(n.used == 2)
      {
        o << (first ? "" : ", ") << "\"" << jesc(n.name) << "\": " << n.n;
        first = false;
      }
    o << "},\n  \"probes\": {";
    first = true;
    for(auto & n : S->probes)
      if(n.used == 2)
      {
        o << (first ? "" : ", ") << "\"" << jesc(n.name) << "\": " << n.n;
        first = false;
      }
    o << "},\n  \"real_components\": \"";
    for(auto & s : registry()[prop]) o << jesc(s.realParts) << "; ";
    o << "\",\n  \"stub_components\": \"";
    for(auto & s : registry()[prop]) o << jesc(s.stubParts) << "; ";
    o << "\",\n  \"known_findings_listed\": " << known.size();
    if(violations) o << ",\n  \"violation\": \"" << jesc(vtext) << "\",\n  \"replay\": \"" << jesc(replayPath) << "\"";
    o << ",\n  \"samples\": [";
    first = true;
    for(auto & p : plans)
      for(i64 k = 0; k < 2 && p.from + k < p.to; ++k)
      {
        Case c = makeCase(prop, p.from + k);
        std::string t = toText(c);
        if(t.size() > 1500) t = t.substr(0, 1500) + "...";
        o << (first ? "" : ", ") << "\"" << jesc(t) << "\"";
        first = false;
      }
    o << "]\n },\n \"assumptions\": [\"single process, checked (Debug) build of the working tree's sources with gcc -O1; exploration samples "
         "schedules, it does not enumerate them\", \"oracles compare with explicit tolerances, so floating-point reassociation does not "
         "alarm\"]\n}\n";
  }
  std::printf("done: %llu runs, %llu oracle checks, %llu distinct states, %.1f s\n", (unsigned long long)S->evals.load(),
              (unsigned long long)S->oracle.load(), (unsigned long long)S->states.load(), simWall);
  return rc;
}
} // namespace sim

int main(int argc, char ** argv)
{
  using namespace sim;
  // the same addresses in every process, where that is permitted
  if(!getenv("SIM_ADDRESSES"))
  {
    setenv("SIM_ADDRESSES", "1", 1);
    int was = personality(0xffffffff);
    if(was != -1 && !(was & ADDR_NO_RANDOMIZE) && personality(unsigned(was) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  void * m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if(m == MAP_FAILED) return 2;
  S = static_cast<Shared *>(m);
  const char * roots[] = {"/dev/shm", "/tmp"};
  for(const char * r : roots)
  {
    std::string t = std::string(r) + "/simscratch.XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if(mkdtemp(b.data()))
    {
      gScratchRoot = b.data();
      break;
    }
  }
  if(gScratchRoot.empty()) return 2;
  int rc = 2;
  try
  {
    rc = runAll(argc, argv);
  }
  catch(const std::exception & e)
  {
    std::fprintf(stderr, "ERROR: %s\n", e.what());
  }
  rmTree(gScratchRoot);
  return rc;
}
