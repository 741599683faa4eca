// Deterministic simulation core: PRNG, traces, seams, oracles' reporting, statistics.
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

#include <Eigen/Core>
#include <Eigen/Geometry>
#include <Eigen/Cholesky>
#include <Eigen/Eigenvalues>
#include <Eigen/LU>

namespace sim
{
typedef int64_t i64;
typedef uint64_t u64;
typedef Eigen::VectorXd Vec;
typedef Eigen::MatrixXd Mat;

// ------------------------------------------------------------------ PRNG
inline u64 mix64(u64 z)
{
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
inline u64 mix64(u64 a, u64 b)
{
  return mix64(mix64(a) ^ (b * 0xd6e8feb86659fd93ULL));
}

struct Rng
{
  u64 s;
  explicit Rng(u64 seed) : s(mix64(seed)) {}
  u64 next()
  {
    s += 0x9e3779b97f4a7c15ULL;
    return mix64(s);
  }
  double uni() // [0,1)
  {
    return double(next() >> 11) * (1.0 / 9007199254740992.0);
  }
  double uni(double a, double b)
  {
    return a + (b - a) * uni();
  }
  i64 range(i64 a, i64 b) // inclusive
  {
    return a + i64(next() % u64(b - a + 1));
  }
  bool chance(double p)
  {
    return uni() < p;
  }
  double normal()
  {
    double u = uni(), v = uni();
    if(u < 1e-300) u = 1e-300;
    return std::sqrt(-2. * std::log(u)) * std::cos(6.283185307179586 * v);
  }
  i64 seed()
  {
    return i64(next() >> 16);
  }
  // index drawn from weights
  int pick(const std::vector<double> & w)
  {
    double t = 0;
    for(double x : w) t += x;
    double r = uni() * t;
    for(size_t i = 0; i < w.size(); ++i)
    {
      if(r < w[i]) return int(i);
      r -= w[i];
    }
    return int(w.size()) - 1;
  }
};

Vec rvec(u64 seed, i64 n, double scale = 1.);       // uniform in [-scale,scale]
Mat rmat(u64 seed, i64 r, i64 c, double scale = 1.);
Mat rspd(u64 seed, i64 n, double lo, double hi);    // symmetric, eigenvalues log-uniform in [lo,hi]
Mat rstable(u64 seed, i64 n, double gain);          // spectral norm == gain
Eigen::Matrix3d rrot(u64 seed, double maxAngle = 3.0);
Eigen::Quaterniond rquat(u64 seed, double maxAngle = 3.0);

// ------------------------------------------------------------------ traces
struct Op
{
  std::string n;
  std::vector<i64> a;
  i64 arg(size_t i, i64 d = 0) const
  {
    return i < a.size() ? a[i] : d;
  }
};
struct Case
{
  std::string prop, scn;
  u64 seed = 0;
  std::map<std::string, i64> cfg;
  std::vector<Op> ops;
  i64 c(const std::string & k, i64 d = 0) const
  {
    auto i = cfg.find(k);
    return i == cfg.end() ? d : i->second;
  }
  void add(const std::string & n, std::vector<i64> a = {})
  {
    ops.push_back(Op{n, std::move(a)});
  }
};
std::string toText(const Case & c);
bool fromText(const std::string & s, Case & c);

// ------------------------------------------------------------------ failures
struct Violation
{
  std::string key, what;
};
// a checked-build assertion of the library (or of Eigen) fired
struct AssertFailure
{
  std::string expr, file;
  long line;
};

// ------------------------------------------------------------------ per-execution context
struct Ctx
{
  u64 hash = 1469598103934665603ULL;
  double simTime = 0; // simulated seconds covered
  bool verbose = false;
  std::string histTail;
  int opIndex = -1;

  void fold(u64 v)
  {
    hash = mix64(hash ^ v);
  }
  void fold(double d)
  {
    u64 b;
    if(d != d)
      b = 0x7ff8dead;
    else
      std::memcpy(&b, &d, 8);
    fold(b);
  }
  template<typename D>
  void fold(const Eigen::MatrixBase<D> & m)
  {
    fold(u64(m.rows()));
    fold(u64(m.cols()));
    for(i64 j = 0; j < m.cols(); ++j)
      for(i64 i = 0; i < m.rows(); ++i) fold(double(m(i, j)));
  }
  void log(const char * fmt, ...) __attribute__((format(printf, 2, 3)));
  // record an oracle evaluation; throws Violation when it does not hold
  void check(bool ok, const char * key, const char * fmt, ...) __attribute__((format(printf, 4, 5)));
  [[noreturn]] void fail(const char * key, const char * fmt, ...) __attribute__((format(printf, 3, 4)));
  // element-wise closeness with mixed tolerance tol*(1+scale)
  template<typename A, typename B>
  void close(const Eigen::MatrixBase<A> & a, const Eigen::MatrixBase<B> & b, double tol, const char * key, const char * what)
  {
    closeM(Mat(a), Mat(b), tol, key, what);
  }
  void close(double a, double b, double tol, const char * key, const char * what)
  {
    closeM(Mat::Constant(1, 1, a), Mat::Constant(1, 1, b), tol, key, what);
  }
  void closeM(const Mat & got, const Mat & want, double tol, const char * key, const char * what);

  void fault(const char * kind, u64 n = 1); // a fault of this kind actually fired
  void probe(const char * name);            // a rare condition was reached
  void state(u64 h);                        // abstract state reached (distinct count)
  u64 nontrivial = 0;                       // scenario marks that the case exercised the property
};

// ------------------------------------------------------------------ seams
// Code of the library runs "armed": coverage, preemption, allocation and I/O faults apply only then.
struct Arm
{
  bool prev;
  Arm();
  ~Arm();
  Arm(const Arm &) = delete;
};
struct Disarm // inside callbacks from the library back into the harness
{
  bool prev;
  Disarm();
  ~Disarm();
  Disarm(const Disarm &) = delete;
};
#define LIB(...)               \
  ([&]() {                     \
    ::sim::Arm simArmGuard_;   \
    return __VA_ARGS__;        \
  }())

namespace alloc
{
void setFill(u64 seed);      // pattern new memory is filled with (seeded garbage)
void failAt(i64 nth);        // fail the nth armed allocation from now (1-based); 0 = never
bool fired();                // whether it fired since failAt
i64 count();                 // armed allocations so far
}
namespace io
{
struct Plan
{
  i64 writeBudget = -1; // bytes accepted before writeErr is returned; -1 unlimited
  int writeErr = 0;     // errno
  bool shortWrites = false;
  i64 eintrEvery = 0;   // every nth write/read call fails with EINTR
  int openErr = 0;      // errno for fopen
  i64 openSkip = 0;     // opens that still succeed before openErr
  int closeErr = 0;     // errno for fclose (write-back error)
  i64 readBudget = -1;  // bytes readable before readErr
  int readErr = 0;
  bool shortReads = false;
};
void arm(const Plan & p);
void disarm();
struct Fired
{
  i64 writeErr = 0, openErr = 0, closeErr = 0, readErr = 0, shortWrite = 0, shortRead = 0, eintr = 0;
};
Fired fired();
std::string scratch(); // private scratch directory of this execution (exists)
}
namespace rnd
{
void setSeed(u64 s); // what std::random_device yields from now on
u64 draws();
}

// cooperative scheduler over real threads: exactly one runs, switches only at instrumented points
namespace sched
{
struct Slice
{
  int thread;
  i64 quantum; // instrumented points before the next decision
};
// Runs the bodies under the given slices; afterwards round-robin until all finish.
// The slices are repeated until `decisions` of them were taken.
// Returns the number of context switches that happened inside library code.
i64 run(const std::vector<std::function<void()>> & bodies, const std::vector<Slice> & slices, u64 & interleavingHash, i64 decisions = 0);
void yieldPoint(); // explicit preemption point (callbacks)
}
i64 steps();                 // instrumented points executed armed in this execution
void setStepLimit(i64 n);

// ------------------------------------------------------------------ scenarios
struct Scenario
{
  const char * prop;
  const char * name; // several scenarios may serve one property
  i64 quickRuns, thoroughRuns;
  const char * rule;      // evidence text
  const char * realParts; // components that ran real code
  const char * stubParts; // components replaced by a stub / seam
  std::function<Case(Rng &, bool thorough)> gen;
  std::function<void(const Case &, Ctx &)> exec;
};
void addScenario(const Scenario & s);
struct Reg
{
  explicit Reg(const Scenario & s)
  {
    addScenario(s);
  }
};

inline bool finite(const Mat & m)
{
  for(i64 i = 0; i < m.size(); ++i)
    if(!std::isfinite(m.data()[i])) return false;
  return true;
}
} // namespace sim
#endif
