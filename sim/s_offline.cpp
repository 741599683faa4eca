// C15: the offline reconstructions give what the same estimator gives when it is fed online, sample by sample; they are
// causal (a recording cut at any time gives the same beginning) and leave the recording as it is.
#include "core.hpp"

#include <iostream>
#include <memory>

#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/examples/imu-attitude-trajectory-reconstruction.hpp>
#include <state-observation/examples/imu-multiplicative-attitude-reconstruction.hpp>
#include <state-observation/examples/offline-ekf-flexibility-estimation.hpp>
#undef FLEXIBILITYESTIMATION_OFFLINEEKFFLEXIBILITYESTIMATION_H // both headers may use the same guard
#include <state-observation/examples/offline-model-base-flex-estimation.hpp>

namespace sim
{
namespace so = stateObservation;
namespace fx = stateObservation::flexibilityEstimation;
namespace ex = stateObservation::examples;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
M3 sk(const V3 & v)
{
  M3 m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}
bool same(const Mat & a, const Mat & b) // bit for bit, invalid values included
{
  if(a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for(i64 i = 0; i < a.size(); ++i)
    if(!(a.data()[i] == b.data()[i]) && !(a.data()[i] != a.data()[i] && b.data()[i] != b.data()[i])) return false;
  return true;
}
template<typename A>
std::map<i64, Mat> content(const A & a)
{
  std::map<i64, Mat> m;
  if(a.size() > 0)
    for(i64 i = a.getFirstIndex(); i < a.getNextIndex(); ++i) m[i] = Mat(a[i]);
  return m;
}
bool sameAll(const std::map<i64, Mat> & a, const std::map<i64, Mat> & b)
{
  if(a.size() != b.size()) return false;
  for(auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
    if(i->first != j->first || !same(i->second, j->second)) return false;
  return true;
}

// a recording
struct Rec
{
  int kind;
  i64 first, n;
  double dt;
  std::map<i64, Vec> y, u;
  std::map<i64, int> nc;
  std::map<i64, Mat> Q, R;
  Mat x0, p, q, r;
  bool noInput, force, gains, extras;
  u64 pad = 0; // how much more time the arrays other than the measurements cover
  double mass;
  M3 kfe = M3::Zero(), kfv = M3::Zero(), kte = M3::Zero(), ktv = M3::Zero();
  std::vector<V3> contacts;
  i64 last() const
  {
    return first + n - 1;
  }
};
typedef std::map<std::string, std::map<i64, Mat>> Out; // estimates and side outputs

so::IndexedVectorArray arr(const std::map<i64, Vec> & m, i64 lo, i64 hi)
{
  so::IndexedVectorArray a;
  for(i64 i = lo; i <= hi; ++i)
    if(m.count(i)) a.setValue(m.at(i), i);
  return a;
}
so::IndexedMatrixArray marr(const std::map<i64, Mat> & m, i64 lo, i64 hi, i64 first)
{
  so::IndexedMatrixArray a;
  if(m.size() == 1)
    a.setValue(m.begin()->second, first);
  else
    for(i64 i = lo; i <= hi; ++i)
      if(m.count(i)) a.setValue(m.at(i), i);
  return a;
}

// the library's reconstruction of the recording up to time 'end'
Out offline(const Rec & k, i64 end, Ctx * c)
{
  Out o;
  i64 lo = k.first - (k.kind == 3 ? 0 : 1);
  so::IndexedVectorArray y = arr(k.y, k.first, end), u = arr(k.u, lo, end), ino, pm, pr, sm, res;
  so::IndexedVectorArray nc;
  so::IndexedMatrixArray Q = marr(k.Q, k.first, end, k.first), R = marr(k.R, k.first, end, k.first);
  for(i64 i = k.first; i <= end && k.kind == 3; ++i) nc.setValue(Vec::Constant(1, k.nc.at(i)), i);
  // the other arrays may cover more time than the measurements
  auto wider = [&](u64 salt, auto & a, auto value, auto known) {
    if(a.size() == 0) return;
    i64 early = i64((k.pad >> (2 * salt)) % 4), late = i64((k.pad >> (2 * salt + 16)) % 4), f = a.getFirstIndex(), l = a.getLastIndex();
    typename std::decay<decltype(a)>::type b;
    for(i64 i = std::max<i64>(0, f - early); i < f; ++i) b.setValue(value(mix64(k.pad, u64(i))), i);
    for(i64 i = f; i <= l; ++i) b.setValue(a[i], i);
    for(i64 i = l + 1; i <= l + late; ++i)
    {
      auto v = known(i);
      b.setValue(v.size() ? v : value(mix64(k.pad, u64(i))), i);
    }
    a = b;
  };
  if(k.pad)
  {
    wider(
        0, u, [&](u64 z) { return rvec(z, u[u.getFirstIndex()].size(), 1); }, [&](i64 i) { return k.u.count(i) ? k.u.at(i) : Vec(); });
    if(k.kind == 3)
    {
      wider(
          1, nc, [&](u64 z) { return Vec(Vec::Constant(1, double(z % 3))); }, [&](i64 i) { return k.nc.count(i) ? Vec(Vec::Constant(1, k.nc.at(i))) : Vec(); });
      if(Q.size() > 1)
        wider(
            2, Q, [&](u64 z) { return rspd(z, Q[Q.getFirstIndex()].rows(), 1e-6, 1e-3); }, [&](i64 i) { return k.Q.count(i) ? k.Q.at(i) : Mat(); });
      if(R.size() > 1)
        wider(
            3, R, [&](u64 z) { return rspd(z, R[R.getFirstIndex()].rows(), 1e-6, 1e-3); }, [&](i64 i) { return k.R.count(i) ? k.R.at(i) : Mat(); });
    }
  }
  auto y0 = content(y), u0 = content(u), n0 = content(nc), Q0 = content(Q), R0 = content(R);
  switch(k.kind)
  {
    case 0:
    {
      Vec x0 = k.x0;
      Arm g;
      res = k.noInput ? ex::imuAttitudeTrajectoryReconstruction(y, x0, k.p, k.q, k.r, k.dt)
                      : ex::imuAttitudeTrajectoryReconstruction(y, u, x0, k.p, k.q, k.r, k.dt);
      break;
    }
    case 1:
    {
      Vec x0 = k.x0;
      Arm g;
      res = k.noInput ? ex::imuMultiplicativeAttitudeReconstruction(y, x0, k.p, k.q, k.r, k.dt)
                      : ex::imuMultiplicativeAttitudeReconstruction(y, u, x0, k.p, k.q, k.r, k.dt);
      break;
    }
    case 2:
    {
      Vec x0 = k.x0;
      std::vector<so::Vector3, Eigen::aligned_allocator<so::Vector3>> cp(k.contacts.begin(), k.contacts.end());
      Arm g;
      if(k.noInput)
        res = ex::offlineEKFFlexibilityEstimation(y, x0, unsigned(cp.size()), cp, k.dt);
      else if(k.extras)
        res = ex::offlineEKFFlexibilityEstimation(y, u, x0, unsigned(cp.size()), cp, k.dt, &ino, &pm);
      else
        res = ex::offlineEKFFlexibilityEstimation(y, u, x0, unsigned(cp.size()), cp, k.dt);
      break;
    }
    default:
    {
      Arm g;
      if(k.extras)
        res = ex::offlineModelBaseFlexEstimation(y, u, k.x0, nc, k.dt, k.mass, k.force, Q, R, k.kfe, k.kfv, k.kte, k.ktv, &pr, &ino, &pm, &sm);
      else
        res = ex::offlineModelBaseFlexEstimation(y, u, k.x0, nc, k.dt, k.mass, k.force, Q, R, k.kfe, k.kfv, k.kte, k.ktv);
      break;
    }
  }
  o["estimate"] = content(res);
  if(k.extras && (k.kind == 3 || (k.kind == 2 && !k.noInput)))
  {
    o["innovation"] = content(ino);
    o["predicted measurement"] = content(pm);
    if(k.kind == 3)
    {
      o["prediction"] = content(pr);
      o["simulated measurement"] = content(sm);
    }
  }
  if(c)
  {
    c->check(sameAll(y0, content(y)), "input-modified", "the recorded measurements were modified");
    c->check(sameAll(u0, content(u)), "input-modified", "the recorded inputs were modified");
    c->check(sameAll(n0, content(nc)) && sameAll(Q0, content(Q)) && sameAll(R0, content(R)), "input-modified", "the recorded settings were modified");
  }
  return o;
}

// the estimator fed online with the same data; 'ask' decides the questions asked in between
Out online(const Rec & k, const Mat & x0, u64 ask, bool givenDt = true)
{
  Out o;
  auto rec = [&](i64 i, const Vec & v) { o["estimate"][i] = v; };
  auto more = [&](i64 i, int w) { return ask && mix64(ask, u64(i * 8 + w)) % 4 == 0; };
  Vec zero6 = Vec::Zero(6);
  auto in = [&](i64 i) { return k.noInput ? Vec(Vec::Zero(k.kind == 2 ? 15 : 6)) : k.u.at(i); };
  if(k.kind < 3 || k.first > 0) rec(k.first - 1, x0);
  Arm g;
  if(k.kind < 2)
  {
    so::IMUDynamicalSystem f0;
    so::IMUMltpctiveDynamicalSystem f1;
    std::unique_ptr<so::ExtendedKalmanFilter> f;
    if(k.kind == 0)
    {
      f.reset(new so::ExtendedKalmanFilter(18, 6, 6, false));
      f0.setSamplingPeriod(k.dt);
      f->setFunctor(&f0);
    }
    else
    {
      f.reset(new so::ExtendedKalmanFilter(19, 18, 6, 6, 6, false, true));
      f1.setSamplingPeriod(k.dt);
      f->setFunctor(&f1);
      f->setStateArithmetics(&f1);
    }
    f->setQ(k.q);
    f->setR(k.r);
    f->setState(x0, k.first - 1);
    f->setStateCovariance(k.p);
    Vec x = x0, dx = Vec::Constant(18, 1e-8);
    for(i64 i = k.first; i <= k.last(); ++i)
    {
      f->setInput(in(i - 1), i - 1); // the input that was applied since the last sample
      if(more(i, 0)) f->updateStatePrediction();
      if(k.kind == 0)
      {
        f->setMeasurement(k.y.at(i), i);
        f->setA(f->getAMatrixFD(dx));
        f->setC(f->getCMatrixFD(dx));
      }
      else
      {
        f->setA(f1.getAMatrix(x));
        f->setC(f1.getCMatrix(f->updateStatePrediction()));
        f->setMeasurement(k.y.at(i), i);
      }
      x = f->getEstimatedState(i);
      if(k.kind == 0)
      {
        double a = x.segment<3>(3).norm();
        if(a > 1.5 * M_PI) x.segment<3>(3) *= std::remainder(a, 2 * M_PI) / a;
      }
      f->setState(x, i);
      rec(i, x);
    }
  }
  else if(k.kind == 2)
  {
    fx::FixedContactEKFFlexEstimatorIMU e;
    if(givenDt) e.setSamplingPeriod(k.dt);
    e.setContactsNumber(unsigned(k.contacts.size()));
    for(size_t i = 0; i < k.contacts.size(); ++i) e.setContactPosition(unsigned(i), k.contacts[i]);
    Mat Q = 1e-4 * Mat::Identity(18, 18);
    Q.block<3, 3>(6, 6) = Q.block<3, 3>(15, 15) = 1e-8 * M3::Identity();
    e.setProcessNoiseCovariance(Q);
    e.setMeasurementNoiseCovariance(Mat(1e-30 * Mat::Identity(6, 6)));
    e.setFlexibilityCovariance(Q);
    e.setFlexibilityGuess(x0);
    for(i64 i = k.first; i <= k.last(); ++i)
    {
      e.setMeasurementInput(in(i));
      if(more(i, 1)) e.getPrediction();
      e.setMeasurement(k.y.at(i));
      rec(i, e.getFlexibilityVector());
      if(more(i, 2)) rec(i, e.getFlexibilityVector());
      if(k.extras && !k.noInput)
      {
        o["innovation"][i] = e.getInnovation();
        o["predicted measurement"][i] = e.getLastPredictedMeasurement();
      }
    }
  }
  else
  {
    fx::ModelBaseEKFFlexEstimatorIMU e(k.dt);
    e.setContactModel(1);
    e.setRobotMass(k.mass);
    if(k.Q.size() == 1) e.setProcessNoiseCovariance(k.Q.begin()->second);
    if(k.R.size() == 1) e.setMeasurementNoiseCovariance(k.R.begin()->second);
    if(k.gains)
    {
      e.setKfe(k.kfe);
      e.setKfv(k.kfv);
      e.setKte(k.kte);
      e.setKtv(k.ktv);
    }
    e.setWithUnmodeledForces(true);
    e.setWithForcesMeasurements(k.force);
    e.setFlexibilityGuess(x0);
    for(i64 i = k.first; i <= k.last(); ++i)
    {
      e.setContactsNumber(unsigned(k.nc.at(i)));
      e.setMeasurement(Vec(k.y.at(i).head(e.getMeasurementSize())));
      e.setMeasurementInput(k.u.at(i));
      if(k.Q.size() > 1) e.setProcessNoiseCovariance(k.Q.at(i));
      if(k.R.size() > 1) e.setMeasurementNoiseCovariance(k.R.at(i));
      rec(i, e.getFlexibilityVector());
      if(more(i, 2)) rec(i, e.getFlexibilityVector());
      if(k.extras)
      {
        o["prediction"][i] = e.getLastPrediction();
        o["innovation"][i] = e.getInnovation();
        o["predicted measurement"][i] = e.getLastPredictedMeasurement();
        o["simulated measurement"][i] = e.getSimulatedMeasurement();
      }
      else if(more(i, 3))
        e.getSimulatedMeasurement();
    }
  }
  return o;
}

Rec record(const Case & c, Ctx & ctx)
{
  Rec k;
  k.kind = int(c.c("kind") % 4);
  k.first = k.kind == 3 ? c.c("first") : c.c("first") % 1000000;
  k.dt = std::pow(10., -2. - double(c.c("dt") % 101) / 100.);
  u64 s = u64(c.c("seed"));
  k.noInput = k.kind < 3 && (s & 3) == 0;
  k.force = s & 4;
  k.gains = k.kind == 3 && (s & 8);
  k.extras = s & 16;
  k.mass = 40 + double(s % 40);
  double spread = std::pow(10., -double(c.c("spread") % 7));
  k.pad = mix64(s, 90) & 1 ? mix64(s, 91) : 0;
  k.p = rspd(mix64(s, 1), 18, 1e-4 * spread, 1e-2);
  k.q = rspd(mix64(s, 2), 18, 1e-6 * spread, 1e-3);
  k.r = rspd(mix64(s, 3), 6, 1e-5 * spread, 1e-2);
  if(k.gains)
  {
    auto gn = [&](int w, double sc) { return M3(M3((V3::Constant(1.2) + V3(rvec(mix64(s, w), 3))).asDiagonal()) * sc); };
    k.kfe = gn(4, 40000);
    k.kfv = gn(5, 600);
    k.kte = gn(6, 600);
    k.ktv = gn(7, 60);
  }
  for(i64 i = 0; i < (k.kind == 2 ? i64(s >> 6) % 3 : 0); ++i) k.contacts.push_back(rvec(mix64(s, 10 + i), 3, 0.3));
  int qm = int((s >> 8) % 3), rm = int((s >> 10) % 3), ncm = int((s >> 12) % 4);
  // start
  Vec x = Vec::Zero(k.kind == 1 ? 19 : k.kind == 3 ? 35 : 18);
  if(k.kind == 0 || k.kind == 2)
  {
    x = rvec(mix64(s, 20), 18, 0.1);
    if(s & 32) x.segment<3>(3) = rvec(mix64(s, 21), 3, k.kind == 0 ? 4. : 0.6);
  }
  if(k.kind == 1)
  {
    x = rvec(mix64(s, 20), 19, 0.1);
    x.segment<4>(3) = rquat(mix64(s, 21)).coeffs();
  }
  if(k.kind == 3) x.head<12>() = rvec(mix64(s, 20), 12, 0.02);
  k.x0 = x;
  if(k.kind == 3 && (s >> 14) % 3 == 0) k.x0 = x.head<6>();
  // samples
  Vec ang = rvec(mix64(s, 22), 6, 2.), lastY;
  i64 t = k.first;
  Eigen::Quaterniond att = rquat(mix64(s, 23), k.kind < 2 ? 2. : 0.05);
  k.u[t - 1] = k.kind == 2 ? rvec(mix64(s, 24), 15, 0.2) : rvec(mix64(s, 24), 6, 0.5);
  int nc = 1;
  for(auto & o : c.ops)
  {
    u64 z = u64(o.arg(1));
    V3 w = 0.4 * V3(std::sin(ang[0] + t * k.dt * 3), std::sin(ang[1] + t * k.dt * 5), std::sin(ang[2] + t * k.dt * 2));
    V3 dw = w * k.dt;
    att = att * Eigen::Quaterniond(1, dw.x() / 2, dw.y() / 2, dw.z() / 2);
    att.normalize();
    Vec y = Vec::Zero(k.kind == 3 ? 18 : 6);
    y.head<3>() = att.inverse() * V3(0, 0, 9.8) + V3(rvec(z, 3, 0.05));
    y.segment<3>(3) = w + V3(rvec(mix64(z, 1), 3, 0.01));
    if(k.kind == 3)
    {
      if(ncm == 3 && z % 8 == 0) nc = int(1 + z / 8 % 2);
      if(ncm < 2) nc = 1 + ncm;
      y.segment<12>(6) = rvec(mix64(z, 2), 12, 30);
      k.nc[t] = nc;
      Vec v = rvec(mix64(z, 3), 48 + 12 * nc, 0.05);
      V3 cm = V3(0, 0, 0.8) + V3(rvec(mix64(z, 4), 3, 0.02));
      v.head<3>() = cm;
      M3 I = M3(V3(25, 26, 23).asDiagonal()) - k.mass * sk(cm) * sk(cm);
      v.segment<6>(9) << I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2);
      for(int i = 0; i < nc; ++i)
      {
        v.segment<12>(48 + 12 * i).setZero();
        v.segment<3>(48 + 12 * i) = V3(0.05, i ? -0.1 : 0.1, 0);
      }
      k.u[t] = v;
      i64 m = 6 + (k.force ? 6 * nc : 0);
      if(qm == 2)
      {
        Mat Q = Mat::Identity(35, 35) * 1e-8;
        Q.diagonal().segment<12>(12).setConstant(std::pow(10., -double(3 + z % 3)));
        k.Q[t] = Q;
      }
      if(rm == 2) k.R[t] = rspd(mix64(z, 6), m, 1e-6, 1e-3);
    }
    else
      k.u[t] = rvec(mix64(z, 7), k.kind == 2 ? 15 : 6, 0.3);
    switch(o.arg(0))
    {
      case 1: // an invalid number
        y[i64(z % 6)] = z & 64 ? NAN : INFINITY;
        ctx.fault("invalid measurement");
        break;
      case 2:
        y.head<6>() += rvec(mix64(z, 8), 6, 50);
        ctx.fault("outlier");
        break;
      case 3:
        if(lastY.size()) y = lastY, ctx.fault("frozen measurement");
        break;
      case 4:
        y.head<6>().setZero();
        ctx.fault("dead sensor");
        break;
      case 5:
        if(k.kind >= 2) k.u[t][i64(z % 3)] = NAN, ctx.fault("invalid input");
        break;
      default: break;
    }
    k.y[t] = lastY = y;
    ++t;
  }
  k.n = t - k.first;
  if(k.kind == 3 && qm == 1) k.Q[0] = Mat::Identity(35, 35) * 1e-7;
  if(k.kind == 3 && rm == 1) k.R[0] = rspd(mix64(s, 30), 6, 1e-6, 1e-3);
  if(k.n == 1 && (k.Q.size() == 1 || k.R.size() == 1)) k.Q.clear(), k.R.clear();
  return k;
}

void exec(const Case & cs, Ctx & c)
{
  if(cs.ops.empty()) return;
  Rec k = record(cs, c);
  u64 s = u64(cs.c("seed"));
  alloc::setFill(mix64(s, 50));
  Out off = offline(k, k.last(), &c);
  auto & est = off["estimate"];
  i64 lo = k.first - 1;
  if(k.kind == 3 && k.first <= 0) lo = k.first;
  c.check(i64(est.size()) == k.last() - lo + 1 && est.begin()->first == lo, "times", "the reconstruction covers %lld..%lld instead of %lld..%lld",
          (long long)(est.empty() ? 0 : est.begin()->first), (long long)(est.empty() ? -1 : est.rbegin()->first), (long long)lo, (long long)k.last());
  // cut recordings
  Rng r(mix64(s, 60));
  int cuts = int(std::min<i64>(k.n - 1, 2));
  for(int j = 0; j < cuts; ++j)
  {
    i64 end = k.first + r.range(0, k.n - 2);
    Rec kk = k;
    // a constant covariance stays one, a recorded one stays recorded
    if((k.Q.size() > 1 || k.R.size() > 1) && end == k.first) continue;
    alloc::setFill(mix64(s, 61 + j));
    Out o = offline(kk, end, nullptr);
    c.fault("recording cut short");
    for(auto & w : o)
      for(auto & i : w.second)
        c.check(same(i.second, off[w.first].at(i.first)), "causality", "the %s at %lld depends on what is recorded after %lld", w.first.c_str(), (long long)i.first,
                (long long)end);
    c.check(o["estimate"].rbegin()->first == end, "times", "the reconstruction of a recording cut at %lld ends at %lld", (long long)end, (long long)o["estimate"].rbegin()->first);
  }
  for(auto & w : off)
    if(w.first != "estimate")
      c.check(i64(w.second.size()) == k.n && w.second.begin()->first == k.first, "times", "the %s does not cover the recording", w.first.c_str());
  // what the estimator gives online, and how much it amplifies rounding
  i64 compared = 0;
  Mat d = k.x0;
  Vec pert = rvec(mix64(s, 53), d.size(), 1e-13);
  for(i64 i = 0; i < d.size(); ++i) d.data()[i] += pert[i];
  auto compare = [&](bool givenDt) { // the first difference, if any
    std::string key, what;
    alloc::setFill(mix64(s, 51));
    Out on = online(k, k.x0, mix64(s, 52), givenDt), on2 = online(k, d, 0, givenDt);
    auto differs = [&](const char * kk, const char * fmt, const std::string & w, i64 at, double e) {
      char buf[300];
      std::snprintf(buf, sizeof buf, fmt, w.c_str(), (long long)at, e);
      key = kk;
      what = buf;
      return std::make_pair(key, what);
    };
    compared = 0;
    for(auto & w : off)
      for(auto & i : w.second)
      {
        if(i.first < k.first)
        {
          if(!same(i.second, k.x0)) return differs("initial", "the reconstruction (%s at %lld) does not start with the initial guess", w.first, i.first, 0);
          continue;
        }
        const Mat &a = i.second, &b = on[w.first].at(i.first), &b2 = on2[w.first].at(i.first);
        if(a.rows() != b.rows() || a.cols() != b.cols()) return differs("size", "the %s at %lld has the wrong size", w.first, i.first, 0);
        if(!finite(b) || !finite(b2))
        {
          if(!finite(b) && !finite(b2) && finite(a)) return differs("invalid-hidden", "the %s at %lld is valid, the online one is not", w.first, i.first, 0);
          c.probe("invalid estimate");
          continue;
        }
        Vec db = (Vec(b) - Vec(b2)).cwiseAbs();
        double sens = db.maxCoeff();
        if(sens > 1e-4 * (1 + b.cwiseAbs().maxCoeff()))
        {
          c.probe("not comparable (ill conditioned)");
          break;
        }
        double e = (a - b).cwiseAbs().maxCoeff(), tol = 1e-6 * (1 + b.cwiseAbs().maxCoeff()) + 1000 * sens;
        if(!(e <= tol)) return differs("online", "the %s at %lld differs by %g from the one estimated online", w.first, i.first, e);
        ++compared;
      }
    return std::make_pair(key, what);
  };
  auto diff = compare(true);
  // a reconstruction that is the one of the estimator with its default sampling period instead of the one given
  bool otherDt = !diff.first.empty() && k.kind == 2 && compare(false).first.empty();
  for(auto & i : est) c.fold(i.second);
  c.state(mix64(u64(k.kind), u64(k.noInput + 2 * k.force + 4 * k.gains + 8 * k.extras) + 16 * k.Q.size() + 4096 * k.R.size() + 1000003 * k.contacts.size()));
  c.simTime += double(k.n) * k.dt;
  c.nontrivial = compared > 0 && k.n > 1;
  if(otherDt) c.fail("sampling-period", "offlineEKFFlexibilityEstimation gives what is estimated online with the default sampling period instead of the one given: %s", diff.second.c_str());
  if(!diff.first.empty()) c.fail(diff.first.c_str(), "%s", diff.second.c_str());
}
Case gen(Rng & r, bool th)
{
  Case c;
  c.cfg["kind"] = r.range(0, 3);
  c.cfg["first"] = r.chance(0.4) ? r.range(0, 2) : r.range(1, 100000);
  c.cfg["dt"] = r.range(0, 100);
  c.cfg["seed"] = r.seed();
  c.cfg["spread"] = r.range(0, 6);
  i64 n = r.range(1, th ? 60 : 25);
  double flt = r.chance(0.4) ? 0. : r.uni(0, 0.3);
  for(i64 i = 0; i < n; ++i) c.add("sample", {r.chance(flt) ? r.range(1, 5) : 0, r.seed()});
  return c;
}
Reg rC15({"C15", "offline", 3000, 60000,
          "random recordings (length, first time, sampling period, contacts, covariances, side outputs) with invalid, frozen, dead and outlying samples, cut at random times; "
          "the reconstruction compared with the online estimator, questioned at random, and with the reconstruction of the cut recording; non-trivial: at least one "
          "comparable estimate",
          "the four offline reconstructions, Kalman filters, flexibility estimators and their models", "recordings", gen, exec});
} // namespace
} // namespace sim
