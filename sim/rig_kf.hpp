// Rig around the Kalman filters: the real filter, a textbook reference model, a delivery pipeline.
#ifndef SIM_RIG_KF_HPP
#define SIM_RIG_KF_HPP
#include "core.hpp"

#include <memory>
#include <state-observation/dynamical-system/dynamical-system-functor-base.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>

namespace sim
{
namespace so = stateObservation;

struct FunctorThrow
{
};

// Nonlinear, time-varying plant.  kind 0: vector state; kind 1: [r3 q4] manifold state.
struct Plant : public so::DynamicalSystemFunctorBase
{
  i64 n, m, p;
  int kind;
  bool needF, needH;
  Mat A, B, C, D, W, V;
  i64 throwAt = 0; // nth callback throws
  i64 calls = 0;
  i64 resets = 0;
  bool badInput = false; // the filter handed over an input of a wrong size
  bool mquat = false; // kind 1: measurement carries a quaternion (m=7, mt=6)

  Plant(u64 seed, i64 n_, i64 m_, i64 p_, int kind_, bool f, bool h) : n(n_), m(m_), p(p_), kind(kind_), needF(f), needH(h)
  {
    A = rstable(mix64(seed, 1), n, 0.95);
    B = rmat(mix64(seed, 2), n, p, 0.5);
    C = rmat(mix64(seed, 3), m, n, 1.);
    D = rmat(mix64(seed, 4), m, p, 0.5);
    W = rmat(mix64(seed, 5), n, n, 1.);
    V = rmat(mix64(seed, 6), m, n, 1.);
  }
  static Eigen::Quaterniond expq(const Eigen::Vector3d & w)
  {
    double a = w.norm();
    Eigen::Quaterniond q;
    q.w() = std::cos(a / 2);
    double s = a < 1e-8 ? 0.5 - a * a / 48. : std::sin(a / 2) / a;
    q.vec() = s * w;
    return q;
  }
  static Eigen::Vector3d logq(Eigen::Quaterniond q)
  {
    if(q.w() < 0) q.coeffs() *= -1;
    double s = q.vec().norm();
    double a = 2 * std::atan2(s, q.w());
    if(s < 1e-12) return 2 * q.vec();
    return q.vec() * (a / s);
  }
  Vec f(const Vec & x, const Vec & u, i64 k) const
  {
    if(kind == 0)
    {
      Vec r = A * x;
      Vec w = W * x;
      for(i64 i = 0; i < n; ++i) r[i] += 0.2 * std::sin(w[i] + 0.3 * double(k % 1021));
      if(needF) r += B * u;
      return r;
    }
    Eigen::Quaterniond q(x[6], x[3], x[4], x[5]);
    Eigen::Vector3d w(0.1 * std::sin(0.2 * double(k % 1021)), 0.07, -0.05);
    Vec r(7);
    r.head<3>() = 0.9 * x.head<3>() + 0.1 * (q * Eigen::Vector3d(1, 0.5, -0.3));
    if(needF)
    {
      Vec bu = B * u;
      r.head<3>() += bu.head<3>();
      w += 0.2 * bu.segment<3>(3);
    }
    Eigen::Quaterniond qn = q * expq(w);
    r.tail<4>() = qn.coeffs();
    return r;
  }
  Vec h(const Vec & x, const Vec & u, i64 k) const
  {
    if(kind == 0)
    {
      Vec r = C * x;
      Vec w = V * x;
      for(i64 i = 0; i < m; ++i) r[i] += 0.2 * std::sin(w[i] - 0.1 * double(k % 1021));
      if(needH) r += D * u;
      return r;
    }
    Eigen::Quaterniond q(x[6], x[3], x[4], x[5]);
    Vec r(m);
    r.head<3>() = q.inverse() * (x.head<3>() + Eigen::Vector3d(0, 0, 1 + 0.1 * std::sin(0.1 * double(k % 1021))));
    if(mquat)
      r.tail<4>() = q.coeffs();
    else
      r.tail<3>() = q * Eigen::Vector3d(1, 2, 3) + 0.3 * x.head<3>();
    if(needH)
    {
      Vec du = D * u;
      r.head<3>() += du.head<3>();
    }
    return r;
  }
  void hit()
  {
    ++calls;
    sched::yieldPoint();
    if(throwAt > 0 && --throwAt == 0) throw FunctorThrow();
  }
  so::Vector stateDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k) override
  {
    Disarm d;
    hit();
    if(u.rows() != p) badInput = true;
    return f(x, u, i64(k));
  }
  so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k) override
  {
    Disarm d;
    hit();
    if(u.rows() != p) badInput = true;
    return h(x, u, i64(k));
  }
  void reset() override
  {
    ++resets;
  }
  so::Index getStateSize() const override
  {
    return n;
  }
  so::Index getInputSize() const override
  {
    return p;
  }
  so::Index getMeasurementSize() const override
  {
    return m;
  }
};

// arithmetics of the manifold state, shared definition, separate instances for filter and model
struct Arith
{
  int kind = 0;
  bool mquat = false;
  Vec sum(const Vec & x, const Vec & d) const
  {
    if(kind == 0) return x + d;
    Vec r(7);
    r.head<3>() = x.head<3>() + d.head<3>();
    Eigen::Quaterniond q(x[6], x[3], x[4], x[5]);
    Eigen::Quaterniond o = q * Plant::expq(d.tail<3>());
    r.tail<4>() = o.coeffs();
    return r;
  }
  Vec diff(const Vec & a, const Vec & b) const
  {
    if(kind == 0) return a - b;
    Vec r(6);
    r.head<3>() = a.head<3>() - b.head<3>();
    Eigen::Quaterniond qa(a[6], a[3], a[4], a[5]), qb(b[6], b[3], b[4], b[5]);
    r.tail<3>() = Plant::logq(qb.inverse() * qa);
    return r;
  }
  Vec mdiff(const Vec & a, const Vec & b) const
  {
    if(!mquat) return a - b;
    Vec r(6);
    r.head<3>() = a.head<3>() - b.head<3>();
    Eigen::Quaterniond qa(a[6], a[3], a[4], a[5]), qb(b[6], b[3], b[4], b[5]);
    r.tail<3>() = Plant::logq(qb.inverse() * qa);
    return r;
  }
};
struct LibArith : public so::StateVectorArithmetics
{
  Arith a;
  void stateSum(const so::Vector & x, const so::Vector & d, so::Vector & s) override
  {
    Disarm g;
    s = a.sum(x, d);
  }
  void stateDifference(const so::Vector & x, const so::Vector & y, so::Vector & d) override
  {
    Disarm g;
    d = a.diff(x, y);
  }
  void measurementDifference(const so::Vector & x, const so::Vector & y, so::Vector & d) override
  {
    Disarm g;
    d = a.mdiff(x, y);
  }
};

struct KfRig
{
  Ctx & c;
  const Case & cs;
  i64 n, nt, m, mt, p;
  bool ext;
  int kind;
  bool needF, needH;
  double tol;
  std::unique_ptr<so::KalmanFilterBase> kf;
  so::LinearKalmanFilter * lin = nullptr;
  so::ExtendedKalmanFilter * ekf = nullptr;
  std::unique_ptr<Plant> plant;
  std::vector<std::unique_ptr<Plant>> oldPlants;
  LibArith libArith;
  Arith ar;

  // ---- reference model
  bool xset = false, pset = false, rset = false, cset = false, aset = false, qset = false, bset = true, fset = true;
  i64 t = 0;
  Vec x;
  Mat P, A, B, C, D, Q, R;
  std::map<i64, Vec> y, u; // y: index > t when the state is set; u: index >= t
  i64 ylast = 0, ulast = 0; // last given (when lib store may retain it)
  bool yretained = false;   // the filter may still hold the measurement of the current time
  i64 tbase = 0;
  Vec xbar, ybar, innov;
  Mat gain, Pbar;
  bool stepped = false, ybarValid = false;
  bool dSet = false;
  i64 stepsDone = 0;
  i64 warm = 0;
  i64 slack = 0;        // consumed samples a failed call may have left behind
  double scaleMax = 0;  // largest predicted covariance since last cleared

  KfRig(Ctx & ctx, const Case & k) : c(ctx), cs(k)
  {
    ext = k.c("ext") != 0;
    kind = int(k.c("kind"));
    n = k.c("n", 2);
    m = k.c("m", 2);
    p = k.c("p", 0);
    needF = k.c("needF") != 0 && p > 0;
    needH = k.c("needH") != 0 && p > 0;
    nt = n;
    mt = m;
    if(kind == 1)
    {
      n = 7;
      nt = 6;
      ar.mquat = k.c("mquat") != 0;
      m = ar.mquat ? 7 : 6;
      mt = 6;
    }
    ar.kind = kind;
    libArith.a = ar;
    tol = 1e-6;
    tbase = k.c("t0");
    u64 s = u64(k.c("plant"));
    plant.reset(new Plant(s, n, m, p, kind, needF, needH));
    plant->mquat = ar.mquat;
    construct();
    // system matrices
    A = rstable(mix64(s, 101), nt, double(k.c("gainA", 95)) / 100.);
    C = rmat(mix64(s, 102), mt, nt, 1.);
    B = needF ? Mat(rmat(mix64(s, 103), n, p, 1.)) : Mat(Mat::Zero(n, p));
    D = needH ? Mat(rmat(mix64(s, 104), m, p, 1.)) : Mat(Mat::Zero(m, p));
    if(ext && kind == 0)
    {
      A = plant->A;
      C = plant->C;
    }
    if(kind == 1) jac(valX(s), zeroU(), zeroU(), tbase, A, C);
    Q = rspd(mix64(s, 105), nt, loQ(), hiQ());
    R = rspd(mix64(s, 106), mt, loR(), hiR());
    push();
  }
  double loQ() const
  {
    return cs.c("wide") ? 1e-7 : 1e-3;
  }
  double hiQ() const
  {
    return cs.c("wide") ? 1e1 : 1.;
  }
  double loR() const
  {
    return cs.c("wide") ? 1e-3 : 1e-2;
  }
  double hiR() const
  {
    return cs.c("wide") ? 1e2 : 1.;
  }
  void construct()
  {
    kf.reset();
    lin = nullptr;
    ekf = nullptr;
    Arm a;
    if(ext)
    {
      if(kind == 1)
        ekf = new so::ExtendedKalmanFilter(n, nt, m, mt, p, needH, needF);
      else if(p == 0)
        ekf = new so::ExtendedKalmanFilter(n, m);
      else
        ekf = new so::ExtendedKalmanFilter(n, m, p, needH, needF);
      kf.reset(ekf);
      ekf->setFunctor(plant.get());
      if(kind == 1) ekf->setStateArithmetics(&libArith);
    }
    else
    {
      lin = new so::LinearKalmanFilter(n, m, p);
      kf.reset(lin);
    }
  }
  void push()
  {
    Arm a;
    kf->setA(A);
    kf->setC(C);
    kf->setQ(Q);
    kf->setR(R);
    if(lin)
    {
      lin->setB(B);
      if(needH || cs.c("dzero")) lin->setD(D);
    }
    aset = cset = qset = rset = true;
  }
  // ------------------------------------------------------------ model steps
  Vec zeroU() const
  {
    return Vec::Zero(p);
  }
  bool ready() const
  {
    return xset && pset && aset && cset && qset && rset && bset && fset;
  }
  bool canStep() const
  {
    if(!ready()) return false;
    if(!y.count(t + 1)) return false;
    if(needF && !u.count(t)) return false;
    if(needH && !u.count(t + 1)) return false;
    return true;
  }
  Vec predX() const
  {
    return predX(x);
  }
  Vec predX(const Vec & x) const
  {
    if(ext) return plant->f(x, needF ? u.at(t) : zeroU(), t);
    Vec r = A * x;
    if(needF) r += B * u.at(t);
    return r;
  }
  Vec sensor(const Vec & xx, i64 k) const
  {
    if(ext) return plant->h(xx, needH ? u.at(k) : zeroU(), k);
    Vec r = C * xx;
    if(needH) r += D * u.at(k);
    return r;
  }
  Vec predX0(const Vec & x) const
  {
    return predX(x);
  }
  Vec twin;
  double spread = 0, lastSpread = 0;
  double cond = 0; // worst condition number of the innovation covariance since the values were last compared
  bool freshCond = false;
  double tolC() const
  {
    return tol + 1e-14 * cond;
  }
  void sync()
  {
    twin = x;
    spread = 0;
    if(ext && finite(x)) twin = ar.sum(x, 1e-9 * rvec(12345, nt, 1.));
    else twin.resize(0);
  }
  // the reference itself tells how ill-conditioned the batch was; beyond 1e6 amplification values are not compared
  double widen(double sp) const
  {
    return sp > 1e-3 || cond > 1e10 ? 1e300 : tol + 1e-4 * sp;
  }
  double tolX() const
  {
    return widen(spread);
  }
  void modelStep()
  {
    if(spread == 0) sync();
    if(freshCond) cond = 0, freshCond = false;
    xbar = predX();
    ybar = sensor(xbar, t + 1);
    Pbar = A * P * A.transpose() + Q;
    scaleMax = std::max(scaleMax, Pbar.cwiseAbs().maxCoeff());
    Vec ino = ar.mdiff(y.at(t + 1), ybar);
    Mat Sm = C * Pbar * C.transpose() + R;
    Mat Si = Sm.fullPivLu().inverse();
    cond = std::max(cond, Sm.norm() * Si.norm());
    gain = Pbar * C.transpose() * Si;
    innov = gain * ino;
    x = ar.sum(xbar, innov);
    if(twin.size() == x.size()) // same step from a slightly perturbed start: how fast do rounding errors grow?
    {
      Vec tb = predX0(twin);
      twin = ar.sum(tb, gain * ar.mdiff(y.at(t + 1), sensor(tb, t + 1)));
      spread = std::max(spread, (twin - x).cwiseAbs().maxCoeff());
      lastSpread = spread;
    }
    Mat I = Mat::Identity(nt, nt);
    Mat ikc = I - gain * C;
    P = ikc * Pbar * ikc.transpose() + gain * R * gain.transpose(); // Joseph form
    P = 0.5 * (P + P.transpose().eval());
    ++t;
    y.erase(y.begin(), y.upper_bound(t));
    u.erase(u.begin(), u.lower_bound(t));
    yretained = true;
    stepped = true;
    ybarValid = true;
    ++stepsDone;
    ++warm;
  }
  // ------------------------------------------------------------ deliveries (relative, so any sub-trace is valid)
  bool nextY(i64 & k) const
  {
    if(!y.empty())
      k = y.rbegin()->first + 1;
    else if(xset)
      k = t + 1;
    else
      k = tbase + 1;
    return true;
  }
  bool nextU(i64 & k, bool late) const
  {
    if(!u.empty())
      k = u.rbegin()->first + 1;
    else if(xset)
      k = (late && !needF && !slack) ? t + 1 : t;
    else
      k = tbase;
    return true;
  }
  Vec valY(u64 s) const
  {
    Vec v = rvec(s, m, 2.);
    if(kind == 1 && ar.mquat) v.tail<4>() = rquat(s, 1.0).coeffs();
    return v;
  }
  Vec valX(u64 s) const
  {
    Vec v = rvec(s, n, 2.);
    if(kind == 1) v.tail<4>() = rquat(s, 3.0).coeffs();
    return v;
  }
  void doSetState(i64 k, const Vec & xx)
  {
    LIB(kf->setState(xx, k));
    if(xset && k < t)
    {
      y.clear();
      u.clear();
      c.probe("setState-past");
    }
    else
    {
      if(xset && k > t) c.probe("setState-future");
      y.erase(y.begin(), y.upper_bound(k));
      u.erase(u.begin(), u.lower_bound(k));
    }
    yretained = false;
    t = k;
    x = xx;
    xset = true;
  }
  void doSetP(u64 s)
  {
    P = rspd(s, nt, cs.c("wide") ? 1e-7 : 1e-2, cs.c("wide") ? 1e3 : 2.);
    LIB(kf->setStateCovariance(P));
    pset = true;
  }
  // numerical Jacobians of the plant computed by the harness
  void jac(const Vec & x0, const Vec & uf, const Vec & uh, i64 k, Mat & Aj, Mat & Cj) const
  {
    const double e = 1e-5;
    Vec xb = plant->f(x0, uf, k);
    Vec y0 = plant->h(xb, uh, k + 1);
    Aj.resize(nt, nt);
    Cj.resize(mt, nt);
    for(i64 i = 0; i < nt; ++i)
    {
      Vec d = Vec::Zero(nt);
      d[i] = e;
      Vec a = plant->f(ar.sum(x0, d), uf, k), b = plant->f(ar.sum(x0, -d), uf, k);
      Aj.col(i) = (ar.diff(a, xb) - ar.diff(b, xb)) / (2 * e);
      Vec ya = plant->h(ar.sum(xb, d), uh, k + 1), yb = plant->h(ar.sum(xb, -d), uh, k + 1);
      Cj.col(i) = (ar.mdiff(ya, y0) - ar.mdiff(yb, y0)) / (2 * e);
    }
  }
  void linearise()
  {
    if(!ext || !canStep() || !finite(x) || !finite(P)) return;
    jac(x, needF ? u.at(t) : zeroU(), needH ? u.at(t + 1) : zeroU(), t, A, C);
    Arm g;
    kf->setA(A);
    kf->setC(C);
  }
  // the state and its covariance are gone; pending data keep their indices, re-initialise next to them
  void forgetState()
  {
    if(xset) tbase = t; // keep later indices near the pending data
    xset = pset = false;
    if(!y.empty()) tbase = y.begin()->first - 1;
    else if(!u.empty()) tbase = u.begin()->first;
    // a retained consumed measurement may still be stored: it defines the next index
    yretained = false;
    if(y.empty())
    {
      i64 nn = i64(LIB(kf->getMeasurementsNumber()));
      if(nn > 0) LIB(kf->clearMeasurements());
    }
    else
      yretained = true;
  }
  // a plant with the current sizes: what 0 only the sensors change, 1 only the inputs, 2 everything
  void newPlant(u64 s, int what, bool inPlace)
  {
    std::unique_ptr<Plant> q(new Plant(s, n, m, p, kind, needF, needH));
    q->mquat = ar.mquat;
    q->resets = plant->resets;
    if(what == 0) q->A = plant->A, q->B = plant->B, q->W = plant->W;
    if(what == 1) q->A = plant->A, q->W = plant->W, q->C = plant->C, q->V = plant->V;
    if(inPlace)
    {
      *plant = *q;
      return;
    }
    oldPlants.push_back(std::move(plant));
    plant = std::move(q);
    if(ekf)
    {
      LIB(ekf->setFunctor(plant.get()));
      fset = true;
    }
  }
  void fresh()
  {
    ybarValid = false;
    stepped = false;
    warm = 0;
  }
  // back to the configuration of a fresh rig
  void restoreConfig(const KfRig & b)
  {
    Arm a;
    if(kind == 0)
    {
      kf->setStateSize(b.n);
      kf->setMeasureSize(b.m);
      kf->setInputSize(b.p);
    }
    n = b.n, m = b.m, p = b.p, nt = b.nt, mt = b.mt;
    needF = b.needF, needH = b.needH;
    oldPlants.push_back(std::move(plant));
    plant.reset(new Plant(*b.plant));
    if(ekf)
    {
      ekf->setFunctor(plant.get());
      ekf->setDirectInputStateFeedthrough(needF);
      ekf->setDirectInputOutputFeedthrough(needH);
    }
    else
      lin->clearD();
    fset = bset = true;
    A = b.A, C = b.C, Q = b.Q, R = b.R, B = b.B, D = b.D;
    push();
  }
  // ------------------------------------------------------------ oracles
  void checkBook()
  {
    c.check(!plant->badInput, "config", "the dynamics functor was called with an input of a wrong size");
    c.check(LIB(kf->stateIsSet()) == xset, "time", "state-set flag is %d, expected %d", int(kf->stateIsSet()), int(xset));
    if(xset)
    {
      i64 ct = i64(LIB(kf->getCurrentTime()));
      c.check(ct == t, "time", "current time is %lld, expected %lld", (long long)ct, (long long)t);
    }
    i64 ny = i64(LIB(kf->getMeasurementsNumber())), nu = i64(LIB(kf->getInputsNumber()));
    i64 py = i64(y.size()), pu = i64(u.size());
    c.check(ny >= py && ny <= py + (yretained ? 1 : 0) + slack, "pending", "%lld measurements stored, %lld pending (retained %d)",
            (long long)ny, (long long)py, int(yretained));
    c.check(nu >= pu && nu <= pu + slack, "pending", "%lld inputs stored, %lld expected", (long long)nu, (long long)pu);
    for(auto & e : y) c.close(LIB(kf->getMeasurement(e.first)), e.second, 0., "pending", "stored measurement");
    for(auto & e : u) c.close(LIB(kf->getInput(e.first)), e.second, 0., "pending", "stored input");
    if(py > 0)
      c.check(i64(LIB(kf->getMeasurementTime())) == y.rbegin()->first, "pending", "last measurement time %lld, expected %lld",
              (long long)kf->getMeasurementTime(), (long long)y.rbegin()->first);
    if(pu > 0)
      c.check(i64(LIB(kf->getInputTime())) == u.rbegin()->first, "pending", "last input time %lld, expected %lld",
              (long long)kf->getInputTime(), (long long)u.rbegin()->first);
  }
  void checkEstimate()
  {
    c.check(!plant->badInput, "config", "the dynamics functor was called with an input of a wrong size");
    if(!xset) return;
    Vec g = LIB(kf->getCurrentEstimatedState());
    c.close(g, x, tolX(), "estimate", "state estimate");
    Mat gp;
    if(pset)
    {
      gp = LIB(kf->getStateCovariance());
      c.close(gp, P, tolC(), "covariance", "state covariance");
    }
    // follow the implementation (within the tolerance just checked) so that rounding does not accumulate
    x = g;
    if(pset) P = gp;
    spread = 0;
    freshCond = true;
  }
  void checkDiagnostics()
  {
    if(!stepped) return;
    c.close(LIB(kf->getInnovation()), innov, widen(lastSpread), "innovation", "state innovation");
    c.close(LIB(kf->getLastGain()), gain, tolC(), "gain", "Kalman gain");
    if(ybarValid)
    {
      c.close(LIB(kf->getLastPrediction()), xbar, widen(lastSpread), "prediction", "last prediction");
      c.close(LIB(kf->getLastPredictedMeasurement()), ybar, widen(lastSpread), "prediction", "last predicted measurement");
    }
  }
  void noteState()
  {
    c.state(mix64(u64(xset) | u64(pset) << 1 | u64(ext) << 2 | u64(kind) << 3 | u64(needF) << 4 | u64(needH) << 5
                      | std::min<u64>(y.size(), 31) << 6 | std::min<u64>(u.size(), 31) << 12 | u64(yretained) << 20 | u64(p) << 22
                      | u64(m) << 26,
                  u64(n)));
  }

  // ------------------------------------------------------------ one trace op; returns false when it does not apply
  bool apply(const Op & o)
  {
    const std::string & nme = o.n;
    if(nme == "init")
    {
      i64 k = xset ? t + o.arg(1) : tbase + std::max<i64>(0, o.arg(1));
      if(k < 0) k = 0;
      doSetState(k, valX(u64(o.arg(0))));
      doSetP(u64(o.arg(0)) + 1);
    }
    else if(nme == "state")
    {
      i64 k = xset ? t + o.arg(1) : tbase + std::max<i64>(0, o.arg(1));
      if(k < 0) k = 0;
      doSetState(k, valX(u64(o.arg(0))));
    }
    else if(nme == "cov")
      doSetP(u64(o.arg(0)));
    else if(nme == "cur")
    {
      if(!xset) return false;
      Vec v = valX(u64(o.arg(0)));
      LIB(kf->setCurrentState(v));
      x = v;
    }
    else if(nme == "y" || nme == "ypush")
    {
      i64 k;
      nextY(k);
      Vec v = valY(u64(o.arg(0)));
      if(o.arg(1)) // corrupted sample
      {
        v[o.arg(1) % m] = std::numeric_limits<double>::quiet_NaN();
        c.fault("corrupt_measurement");
      }
      if(nme == "ypush" && (xset || !y.empty()))
        LIB(kf->pushMeasurement(v));
      else
        LIB(kf->setMeasurement(v, k));
      y[k] = v;
    }
    else if(nme == "yre") // redelivery / correction of a sample that is still pending
    {
      if(y.empty()) return false;
      auto it = y.begin();
      std::advance(it, o.arg(1) % i64(y.size()));
      Vec v = valY(u64(o.arg(0)));
      if(o.arg(2)) v = it->second, c.fault("duplicate_delivery");
      else c.fault("late_correction");
      LIB(kf->setMeasurement(v, it->first));
      it->second = v;
    }
    else if(nme == "u" || nme == "upush")
    {
      Vec v = rvec(u64(o.arg(0)), p, 1.);
      i64 k;
      nextU(k, o.arg(1) != 0 && nme == "u");
      if(nme == "upush" && (xset || !u.empty()))
        LIB(kf->pushInput(v));
      else
        LIB(kf->setInput(v, k));
      if(p > 0) u[k] = v;
    }
    else if(nme == "ure")
    {
      if(u.empty()) return false;
      auto it = u.begin();
      std::advance(it, o.arg(1) % i64(u.size()));
      Vec v = rvec(u64(o.arg(0)), p, 1.);
      if(o.arg(2)) v = it->second, c.fault("duplicate_delivery");
      else c.fault("late_correction");
      LIB(kf->setInput(v, it->first));
      it->second = v;
    }
    else if(nme == "est") // advance by up to arg0 steps in one call
    {
      i64 k = t, cnt = 0;
      Mat P0 = P;
      while(cnt < o.arg(0, 1) && canStep())
      {
        modelStep();
        ++cnt;
      }
      if(cnt == 0) return false;
      Vec g = LIB(kf->getEstimatedState(k + cnt));
      if(cnt > 1) c.probe("batched-steps");
      c.close(g, x, tolX(), "estimate", "returned state estimate");
      c.simTime += 0.005 * double(cnt);
    }
    else if(nme == "estAll")
    {
      if(!xset) return false;
      // only when everything delivered can be consumed
      i64 target = y.empty() ? t : y.rbegin()->first;
      if(!y.empty())
      {
        if(y.begin()->first != t + 1) return false;
        if(!ready()) return false;
        for(i64 k = t; k < target; ++k)
        {
          if(needF && !u.count(k)) return false;
          if(needH && !u.count(k + 1)) return false;
        }
      }
      while(t < target) modelStep(), c.simTime += 0.005;
      i64 r = i64(LIB(kf->estimateState()));
      c.check(r == t, "time", "estimateState returned time %lld, expected %lld", (long long)r, (long long)t);
    }
    else if(nme == "predict") // pre-computation of the prediction before the step
    {
      if(!canStep()) return false;
      if(o.arg(0) % 2)
      {
        Vec g = LIB(kf->updateStatePrediction());
        c.close(g, predX(), tol, "prediction", "state prediction");
      }
      else
      {
        Vec g = LIB(kf->updateStateAndMeasurementPrediction());
        c.close(g, sensor(predX(), t + 1), tol, "prediction", "measurement prediction");
      }
      ybarValid = false;
      c.probe("precomputed-prediction");
    }
    else if(nme == "fd")
    {
      if(!ekf || !canStep() || !finite(x) || !finite(P)) return false;
      Vec dx = Vec::Constant(nt, 1e-6);
      Mat a = LIB(ekf->getAMatrixFD(dx));
      Mat cc = LIB(ekf->getCMatrixFD(dx));
      Mat ka = A, kc = C;
      linearise(); // harness Jacobians into A, C (and the filter)
      c.close(a, A, 2e-4, "jacobian", "finite-difference state Jacobian");
      c.close(cc, C, 2e-4, "jacobian", "finite-difference measurement Jacobian");
      ybarValid = false;
      c.probe("finite-difference");
    }
    else if(nme == "lin")
      linearise();
    else if(nme == "mat") // time-varying system: replace one matrix
    {
      u64 s = u64(o.arg(1));
      switch(o.arg(0) % 6)
      {
        case 0:
          if(ext && !cs.c("wide"))
            A += rmat(s, nt, nt, 0.02);
          else
            A = rstable(s, nt, double(cs.c("gainA", 95)) / 100.);
          LIB(kf->setA(A));
          aset = true;
          break;
        case 1:
          if(ext && !cs.c("wide"))
            C += rmat(s, mt, nt, 0.02);
          else
            C = rmat(s, mt, nt, 1.);
          LIB(kf->setC(C));
          cset = true;
          break;
        case 2:
          Q = rspd(s, nt, loQ(), hiQ());
          LIB(kf->setQ(Q));
          qset = true;
          break;
        case 3:
          R = rspd(s, mt, loR(), hiR());
          LIB(kf->setR(R));
          rset = true;
          break;
        case 4:
          if(!lin || (!needF && bset)) return false;
          if(needF) B = rmat(s, n, p, 1.);
          LIB(lin->setB(B));
          bset = true;
          break;
        case 5:
          if(!lin || !needH) return false;
          D = rmat(s, m, p, 1.);
          LIB(lin->setD(D));
          break;
      }
    }
    else if(nme == "simY")
    {
      if(!xset || !cset || !fset) return false;
      if(needH && !u.count(t)) return false;
      Vec g = LIB(kf->getSimulatedMeasurement(t));
      c.close(g, sensor(x, t), tol, "simulated", "simulated measurement");
      ybarValid = false;
    }
    else if(nme == "clrY")
    {
      LIB(kf->clearMeasurements());
      y.clear();
      yretained = false;
      c.fault("lost_measurements");
    }
    else if(nme == "clrU")
    {
      LIB(kf->clearInputs());
      u.clear();
      c.fault("lost_inputs");
    }
    else if(nme == "clrYU")
    {
      LIB(kf->clearInputsAndMeasurements());
      y.clear();
      u.clear();
      yretained = false;
      c.fault("lost_measurements");
    }
    else if(nme == "clrX")
    {
      LIB(kf->clearStates());
      forgetState();
      c.fault("lost_state");
    }
    else if(nme == "size") // the sensor set, the actuators or the state description change
    {
      if(kind == 1) return false;
      u64 s2 = u64(o.arg(1));
      i64 what = o.arg(2) % 3;
      if(what == 0)
      {
        i64 nm = 1 + o.arg(0) % 5;
        LIB(kf->setMeasureSize(nm));
        if(nm != m)
        {
          m = mt = nm;
          y.clear();
          yretained = false;
          c.probe("sensor-set-change");
          newPlant(s2, 0, (o.arg(0) / 5) % 2);
          R = rspd(s2, mt, loR(), hiR());
          C = ext ? plant->C : rmat(s2 + 1, mt, nt, 1.);
          D = needH ? Mat(rmat(s2 + 2, m, p, 1.)) : Mat(Mat::Zero(m, p));
          {
            Arm a;
            kf->setR(R);
            kf->setC(C);
            if(lin && needH) lin->setD(D);
          }
          rset = cset = true;
          fresh();
        }
      }
      else if(what == 1)
      {
        i64 np = o.arg(0) % 4;
        LIB(kf->setInputSize(np));
        if(np != p)
        {
          p = np;
          u.clear();
          c.probe("input-set-change");
          needF = p > 0 && (s2 & 1);
          needH = p > 0 && (s2 & 2);
          newPlant(s2, 1, false);
          B = needF ? Mat(rmat(s2 + 1, n, p, 1.)) : Mat(Mat::Zero(n, p));
          D = needH ? Mat(rmat(s2 + 2, m, p, 1.)) : Mat(Mat::Zero(m, p));
          Arm a;
          if(ekf)
          {
            ekf->setDirectInputStateFeedthrough(needF);
            ekf->setDirectInputOutputFeedthrough(needH);
          }
          else
          {
            lin->setB(B);
            if(needH) lin->setD(D);
          }
          bset = true;
          fresh();
        }
      }
      else
      {
        i64 nn = 1 + o.arg(0) % 5;
        LIB(kf->setStateSize(nn));
        if(nn != n)
        {
          n = nt = nn;
          c.probe("state-size-change");
          forgetState();
          newPlant(s2, 2, false);
          A = ext ? plant->A : rstable(s2 + 3, nt, double(cs.c("gainA", 95)) / 100.);
          C = ext ? plant->C : rmat(s2 + 1, mt, nt, 1.);
          Q = rspd(s2 + 4, nt, loQ(), hiQ());
          B = needF ? Mat(rmat(s2 + 5, n, p, 1.)) : Mat(Mat::Zero(n, p));
          {
            Arm a;
            kf->setA(A);
            kf->setC(C);
            kf->setQ(Q);
            if(lin) lin->setB(B);
          }
          aset = cset = qset = bset = true;
          fresh();
        }
      }
    }
    else if(nme == "feed") // a direct feedthrough is switched on or off
    {
      if(p == 0) return false;
      bool F = o.arg(0) % 2;
      if(F)
      {
        if(!needF && !u.empty() && (!xset || u.begin()->first > t)) return false; // the input it would need was never delivered
        needF = !needF;
        plant->needF = needF;
        B = needF ? Mat(rmat(u64(o.arg(1)), n, p, 1.)) : Mat(Mat::Zero(n, p));
        if(ekf)
          LIB(ekf->setDirectInputStateFeedthrough(needF));
        else
          LIB(lin->setB(B));
        bset = true;
      }
      else
      {
        needH = !needH;
        plant->needH = needH;
        D = needH ? Mat(rmat(u64(o.arg(1)), m, p, 1.)) : Mat(Mat::Zero(m, p));
        if(ekf)
          LIB(ekf->setDirectInputOutputFeedthrough(needH));
        else if(!needH && o.arg(1) % 2)
          LIB(lin->clearD());
        else
          LIB(lin->setD(D));
      }
      ybarValid = false;
      c.probe("feedthrough-switched");
    }
    else if(nme == "clrM") // one ingredient of the filter is taken away: steps are refused without effect until it is back
    {
      bool could = canStep();
      switch(o.arg(0) % 8)
      {
        case 0:
          LIB(kf->clearA());
          aset = false;
          break;
        case 1:
          LIB(kf->clearC());
          cset = false;
          break;
        case 2:
          LIB(kf->clearQ());
          qset = false;
          break;
        case 3:
          LIB(kf->clearR());
          rset = false;
          break;
        case 4:
          LIB(kf->clearStateCovariance());
          pset = false;
          break;
        case 5:
          if(!lin) return false;
          LIB(lin->clearB());
          bset = false;
          break;
        case 6: // without D there is no feedthrough
          if(!lin) return false;
          LIB(lin->clearD());
          needH = false;
          plant->needH = false;
          D.setZero();
          could = false;
          break;
        case 7:
          if(!ekf) return false;
          LIB(ekf->clearFunctor());
          c.check(LIB(ekf->getFunctor()) == nullptr, "config", "the functor is still there after clearFunctor");
          fset = false;
          could = false; // a prediction computed before may still be used
          break;
      }
      c.fault("configuration_lost");
      if(could)
      {
        bool refused = false;
        try
        {
          LIB(kf->getEstimatedState(t + 1));
        }
        catch(const AssertFailure &)
        {
          refused = true;
        }
        c.check(refused, "refusal", "a step was executed although a matrix it needs was cleared (%lld)", (long long)(o.arg(0) % 8));
        ybarValid = false;
      }
    }
    else if(nme == "bounce") // a size changes and changes back: nothing which depended on it is left
    {
      if(kind == 1) return false;
      i64 d = 1 + (o.arg(0) / 3) % 2;
      switch(o.arg(0) % 3)
      {
        case 0:
          LIB(kf->setMeasureSize(m + d));
          LIB(kf->setMeasureSize(m));
          y.clear();
          yretained = false;
          cset = rset = false;
          if(lin) needH = false, plant->needH = false, D.setZero();
          break;
        case 1:
          LIB(kf->setInputSize(p + d));
          LIB(kf->setInputSize(p));
          u.clear();
          if(lin) bset = false, needH = false, plant->needH = false, D.setZero();
          break;
        case 2:
          LIB(kf->setStateSize(n + d));
          LIB(kf->setStateSize(n));
          forgetState();
          aset = cset = qset = pset = false;
          if(lin) bset = false;
          break;
      }
      c.probe("size-and-back");
      fresh();
    }
    else if(nme == "setM") // what clrM took away comes back
    {
      u64 s = u64(o.arg(0));
      if(!ready() && fset && xset && y.count(t + 1) && (!needF || u.count(t)) && (!needH || u.count(t + 1)))
      {
        { // all but one of the missing ones
          Arm a;
          int q = int(s % 6);
          auto miss = [&](int i) { return i == 0 ? !aset : i == 1 ? !cset : i == 2 ? !qset : i == 3 ? !rset : i == 4 ? !bset : !pset; };
          while(!miss(q)) q = (q + 1) % 6;
          if(!aset && q != 0) kf->setA(A), aset = true;
          if(!cset && q != 1) kf->setC(C), cset = true;
          if(!qset && q != 2) kf->setQ(Q), qset = true;
          if(!rset && q != 3) kf->setR(R), rset = true;
          if(lin && !bset && q != 4) lin->setB(B), bset = true;
          if(!pset && q != 5 && P.rows() == nt) kf->setStateCovariance(P), pset = true;
        }
        bool refused = false;
        try
        {
          LIB(kf->getEstimatedState(t + 1));
        }
        catch(const AssertFailure &)
        {
          refused = true;
        }
        c.check(refused, "refusal", "a step was executed although a matrix it needs was not given");
        c.probe("lacking");
        ybarValid = false;
      }
      Arm a;
      if(!aset) kf->setA(A);
      if(!cset) kf->setC(C);
      if(!qset) kf->setQ(Q);
      if(!rset) kf->setR(R);
      if(lin && !bset) lin->setB(B);
      if(ekf && !fset)
      {
        ekf->setFunctor(plant.get());
        ybarValid = false;
      }
      if(!pset && xset && P.rows() == nt)
      {
        P = rspd(s, nt, cs.c("wide") ? 1e-7 : 1e-2, cs.c("wide") ? 1e3 : 2.);
        kf->setStateCovariance(P);
        pset = true;
      }
      aset = cset = qset = rset = bset = fset = true;
    }
    else if(nme == "get") // what was configured is what is reported
    {
      auto same = [&](bool set, const Mat & got, const Mat & want, const char * what)
      {
        if(set)
          c.close(got, want, 0., "config", what);
        else
          c.check(got.size() == 0, "config", "%s is still there after it was cleared", what);
      };
      same(aset, LIB(kf->getA()), A, "A");
      same(cset, LIB(kf->getC()), C, "C");
      same(qset, LIB(kf->getQ()), Q, "Q");
      same(rset, LIB(kf->getR()), R, "R");
      c.check(i64(LIB(kf->getStateSize())) == n && i64(LIB(kf->getMeasureSize())) == m && i64(LIB(kf->getInputSize())) == p, "config",
              "sizes are %lld/%lld/%lld, expected %lld/%lld/%lld", (long long)kf->getStateSize(), (long long)kf->getMeasureSize(),
              (long long)kf->getInputSize(), (long long)n, (long long)m, (long long)p);
      if(ekf) c.check(LIB(ekf->getFunctor()) == (fset ? plant.get() : nullptr), "config", "another functor is reported");
    }
    else if(nme == "reset")
    {
      i64 before = plant->resets;
      LIB(kf->reset());
      if(ekf && fset) c.check(plant->resets == before + 1, "reset", "the dynamics functor was not reset with the filter");
      xset = pset = false;
      y.clear();
      u.clear();
      yretained = false;
      stepped = false;
      ybarValid = false;
      tbase = cs.c("t0") + (o.arg(0) ? 0 : t - cs.c("t0"));
      c.fault("restart");
    }
    else if(nme == "badY") // gap or out-of-order delivery must be refused without effect
    {
      if(!xset && y.empty()) return false;
      i64 k;
      nextY(k);
      i64 b = (o.arg(1) % 2 || !xset) ? k + 1 + o.arg(1) % 3 : t - o.arg(1) % 3;
      if(b >= k || (b <= t && xset && !y.empty()))
      {
        if(b == t && yretained) return false; // the retained sample may be overwritten harmlessly
        if(b < 0) return false;
        bool refused = false;
        Vec v = valY(u64(o.arg(0)));
        try
        {
          LIB(kf->setMeasurement(v, b));
        }
        catch(const AssertFailure &)
        {
          refused = true;
        }
        c.check(refused, "refusal", "a measurement at time %lld was accepted although time %lld is the next one", (long long)b, (long long)k);
        c.fault("gap_or_reordered_delivery");
      }
      else
        return false;
    }
    else if(nme == "badU")
    {
      if(p == 0 || !xset) return false;
      i64 k;
      nextU(k, false);
      i64 b = k + 2 + o.arg(1) % 3;
      bool refused = false;
      Vec v = rvec(u64(o.arg(0)), p, 1.);
      try
      {
        LIB(kf->setInput(v, b));
      }
      catch(const AssertFailure &)
      {
        refused = true;
      }
      c.check(refused, "refusal", "an input at time %lld was accepted although time %lld is the next one", (long long)b, (long long)k);
      c.fault("gap_or_reordered_delivery");
    }
    else if(nme == "badT") // asking for the past must be refused without effect
    {
      if(!xset || t < 1) return false;
      bool refused = false;
      try
      {
        LIB(kf->getEstimatedState(t - 1 - o.arg(0) % 2));
      }
      catch(const AssertFailure &)
      {
        refused = true;
      }
      c.check(refused, "refusal", "an estimate of the past was returned");
      c.fault("query_of_the_past");
    }
    else if(nme == "over") // asking further than the delivered data: everything available is used, then refusal
    {
      if(!ready()) return false;
      if(!u.empty() && u.begin()->first > t) return false;
      i64 avail = 0;
      i64 k0 = t;
      while(canStep())
      {
        modelStep();
        ++avail;
      }
      bool refused = false;
      try
      {
        LIB(kf->getEstimatedState(k0 + avail + 1 + o.arg(0) % 3));
      }
      catch(const AssertFailure &)
      {
        refused = true;
      }
      c.check(refused, "refusal", "an estimate was returned without the data it needs");
      // the refused attempt may have stored one consumed measurement less/more: fold into retained
      c.fault("query_beyond_data");
      ybarValid = false;
    }
    else if(nme == "failstep") // a step that fails part-way: callback throws or allocation fails
    {
      if(!canStep()) return false;
      bool thrown = false;
      bool al = o.arg(0) % 2;
      if(al)
      {
        if(warm < 2) return false; // buffers not sized yet: Eigen itself does not survive a failed resize
        alloc::failAt(1 + o.arg(1) % 24);
      }
      else
      {
        if(!ext) return false;
        plant->throwAt = 1 + o.arg(1) % 2;
      }
      try
      {
        LIB(kf->getEstimatedState(t + 1));
      }
      catch(const FunctorThrow &)
      {
        thrown = true;
        c.fault("callback_throws");
      }
      catch(const std::bad_alloc &)
      {
        thrown = true;
        c.fault("allocation_failure");
      }
      bool firedA = alloc::fired();
      alloc::failAt(0);
      plant->throwAt = 0;
      if(!thrown)
        modelStep();
      else
      {
        // a failed allocation may hit the copy of an already committed result: all or nothing, never half a step
        if(firedA && i64(LIB(kf->getCurrentTime())) == t + 1)
        {
          modelStep();
          // the samples consumed by the interrupted call are dropped by re-setting the state, as documented
          Vec cur = LIB(kf->getCurrentEstimatedState());
          LIB(kf->setState(cur, t));
          yretained = false;
          c.probe("failure-after-commit");
        }
        ybarValid = false;
        stepped = false;
      }
    }
    else
      return false;
    return true;
  }
};

// Delivery pipeline: a virtual-time network feeds the observer; returns the op list (the schedule).
struct Mix
{
  double stateJump = 0, cur = 0, mats = 0, predict = 0, fd = 0, clears = 0, bad = 0, fail = 0, corrupt = 0, resets = 0, sizes = 0,
         simY = 0, over = 0, feed = 0, lose = 0, get = 0;
};
void genDelivery(Rng & r, Case & c, const Mix & m, i64 ticks);
void genKfConfig(Rng & r, Case & c);
} // namespace sim
#endif
