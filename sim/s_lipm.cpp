// C09: DCM estimators against an independent model, with late updates, setting changes and measurement faults
#include "core.hpp"

#include <deque>
#include <memory>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
typedef Eigen::Vector2d V2;
typedef Eigen::Matrix2d M2;
M2 rot(double a)
{
  M2 r;
  r << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
  return r;
}
double par(i64 v, double lo, double hi) // log scale over 0..1000
{
  return lo * std::pow(hi / lo, double(std::llabs(v) % 1001) / 1000.);
}
V2 v2(i64 seed, double s)
{
  return rvec(u64(seed), 2, s);
}

// textbook filter of the documented model: state [dcm, bias] (2 axes x 2, or 1 x 2)
struct Model
{
  int ax;
  double dt, om, drift, ed, ez;
  Vec x;
  Mat P;
  struct Smp
  {
    Vec y, u;
    Mat dR;
    Mat R;
  };
  std::deque<Smp> q;
  Vec zmp;
  Mat R;     // current orientation
  V2 limit = V2::Zero();
  i64 clamps = 0, steps = 0;
  double maxAbs = 1;
  Mat I() const
  {
    return Mat::Identity(ax, ax);
  }
  void start(const Vec & dcm, const Vec & bias, const Mat & P0)
  {
    x.resize(2 * ax);
    x << dcm, bias;
    P = P0;
    q.clear();
  }
  void step()
  {
    Smp s = q.front();
    q.pop_front();
    Mat A = Mat::Zero(2 * ax, 2 * ax), B = Mat::Zero(2 * ax, ax), C(ax, 2 * ax), Q = Mat::Zero(2 * ax, 2 * ax);
    A.topLeftCorner(ax, ax) = (1 + om * dt) * I();
    A.bottomRightCorner(ax, ax) = s.dR;
    B.topRows(ax) = -om * dt * I();
    C << I(), I();
    Q.topLeftCorner(ax, ax) = std::pow(om * dt * ez, 2) * I();
    Q.bottomRightCorner(ax, ax) = std::pow(drift * dt, 2) * I();
    Vec xb = A * x + B * s.u;
    Mat Pb = A * P * A.transpose() + Q;
    Mat S = C * Pb * C.transpose() + ed * ed * I();
    Mat K = Pb * C.transpose() * S.inverse();
    x = xb + K * (s.y - C * xb);
    Mat L = Mat::Identity(2 * ax, 2 * ax) - K * C;
    P = L * Pb * L.transpose() + K * (ed * ed) * K.transpose();
    maxAbs = std::max(maxAbs, xb.cwiseAbs().maxCoeff());
    maxAbs = std::max(maxAbs, s.y.cwiseAbs().maxCoeff());
    ++steps;
  }
  void clamp()
  {
    if(ax != 2 || !(limit.x() > 0 || limit.y() > 0)) return;
    V2 l = R.transpose() * x.tail(2), k = l;
    for(int i = 0; i < 2; ++i)
      if(limit[i] > 0) k[i] = std::min(std::max(l[i], -limit[i]), limit[i]);
    if((k - l).norm() > 1e-9) ++clamps;
    x.tail(2) = R * k;
    x.head(2) += R * (l - k);
  }
  void update()
  {
    while(!q.empty()) step();
    clamp();
  }
};
struct Rig
{
  Ctx & c;
  const Case & k;
  int ax;
  std::unique_ptr<so::LipmDcmEstimator> e2;
  std::unique_ptr<so::UnidimLipmDcmEstimator> e1;
  Model m;
  double yaw = 0;
  bool conv;
  // true plant
  V2 xi, bl; // true DCM, local bias
  V2 lastY, lastZ;
  Rig(Ctx & cc, const Case & kk) : c(cc), k(kk)
  {
    ax = k.c("axes", 2) == 1 ? 1 : 2;
    conv = k.c("conv");
    m.ax = ax;
    m.dt = conv ? par(k.c("dt"), 0.005, 0.02) : par(k.c("dt"), 0.001, 0.02);
    m.om = par(k.c("om"), 2.5, 5);
    m.drift = conv ? par(k.c("drift"), 0.1, 0.5) : par(k.c("drift"), 1e-4, 0.5);
    m.ed = conv ? par(k.c("ed"), 0.002, 0.01) : par(k.c("ed"), 1e-3, 0.1);
    m.ez = conv ? par(k.c("ez"), 0.005, 0.02) : par(k.c("ez"), 1e-3, 0.1);
    m.R = Mat::Identity(ax, ax);
    V2 d0 = v2(k.c("d0"), 0.5), b0 = v2(k.c("b0"), 0.05), z0 = v2(k.c("z0"), 0.5);
    V2 ud = (v2(k.c("ud"), 0.02).cwiseAbs() + V2::Constant(0.002)), ub = (v2(k.c("ub"), 0.02).cwiseAbs() + V2::Constant(0.002));
    if(k.c("lim")) m.limit = limits(k.c("lim"));
    m.zmp = z0.head(ax);
    Mat P = Mat::Zero(2 * ax, 2 * ax);
    for(int i = 0; i < ax; ++i)
    {
      P(i, i) = ud[i] * ud[i];
      P(ax + i, ax + i) = ub[i] * ub[i];
    }
    m.start(d0.head(ax), b0.head(ax), P);
    Arm g;
    if(ax == 2)
      e2.reset(new so::LipmDcmEstimator(m.dt, m.om, m.drift, m.ed, m.ez, m.limit, z0, d0, b0, ud, ub));
    else
      e1.reset(new so::UnidimLipmDcmEstimator(m.dt, m.om, m.drift, d0[0], z0[0], b0[0], m.ed, m.ez, ud[0], ub[0]));
    xi = v2(k.c("xi"), 0.3);
    bl = v2(k.c("bl"), 0.04);
    lastY = lastZ = V2::Zero();
  }
  static V2 limits(i64 s)
  {
    Rng r{u64(s)};
    V2 l;
    for(int i = 0; i < 2; ++i) l[i] = r.chance(0.3) ? 0. : r.uni(0.001, 0.05);
    return l;
  }
  Vec dcm() const
  {
    if(ax == 2) return LIB(Vec(e2->getUnbiasedDCM()));
    return Vec::Constant(1, LIB(e1->getUnbiasedDCM()));
  }
  Vec bias() const
  {
    if(ax == 2) return LIB(Vec(e2->getBias()));
    return Vec::Constant(1, LIB(e1->getBias()));
  }
  void same(const char * when)
  {
    double s = m.maxAbs;
    c.close(dcm() / s, m.x.head(ax) / s, 2e-7, "dcm-value", when);
    c.close(bias() / s, m.x.tail(ax) / s, 2e-7, "bias-value", when);
    if(ax == 2) c.close(LIB(Vec(e2->getLocalBias())) / s, m.R.transpose() * m.x.tail(2) / s, 2e-7, "bias-value", "bias in the local frame");
    Mat P = ax == 2 ? LIB(Mat(e2->getFilter().getStateCovariance())) : LIB(Mat(e1->getFilter().getStateCovariance()));
    double ps = m.P.cwiseAbs().maxCoeff();
    c.close(P / ps, m.P / ps, 1e-6, "covariance-value", when);
    // follow rounding
    m.x.head(ax) = dcm();
    m.x.tail(ax) = bias();
    m.P = P;
    m.maxAbs = std::max(1., m.x.cwiseAbs().maxCoeff());
  }
  void inputs(const V2 & y, const V2 & z, double newYaw, i64 how)
  {
    if(ax == 2)
    {
      if(!m.q.empty()) m.update(); // a pending sample is first processed with its own orientation
      Mat R = rot(newYaw);
      m.q.push_back(Model::Smp{y, m.zmp, R * m.R.transpose(), R});
      m.R = R;
      m.zmp = z;
      Arm g;
      if(how % 3 == 0)
        e2->setInputs(y, z, newYaw);
      else if(how % 3 == 1)
        e2->setInputs(y, z, so::Matrix2(R));
      else
      {
        so::Matrix3 r3 = so::Matrix3::Identity();
        r3.topLeftCorner<2, 2>() = R;
        e2->setInputs(y, z, r3);
      }
    }
    else
    {
      m.q.push_back(Model::Smp{y.head(1), m.zmp, Mat::Identity(1, 1), Mat::Identity(1, 1)});
      m.zmp = z.head(1);
      LIB(e1->setInputs(y[0], z[0]));
    }
    yaw = newYaw;
  }
  void upd()
  {
    Mat Rq = m.R;
    m.update();
    if(ax == 2)
      LIB(e2->update());
    else
    {
      Vec r = LIB(Vec(e1->update()));
      c.close(r, (Vec(2) << dcm(), bias()).finished(), 0., "dcm-value", "returned estimate");
    }
    same("after an update");
    if(ax == 2)
    {
      V2 l = LIB(V2(e2->getLocalBias()));
      for(int i = 0; i < 2; ++i)
        c.check(!(m.limit[i] > 0) || std::fabs(l[i]) <= m.limit[i] * (1 + 1e-9), "bias-bound", "axis %d: |local bias| = %g exceeds %g", i,
                std::fabs(l[i]), m.limit[i]);
    }
  }
  void apply(const Op & o)
  {
    const std::string & n = o.n;
    if(n == "plant") // one control period: the plant moves, a (possibly faulty) sample arrives
    {
      i64 fault = o.arg(1);
      Rng r{u64(o.arg(0))};
      double ny = yaw + (o.arg(2) ? r.uni(-0.3, 0.3) : 0.);
      V2 z = xi * 1.3 + v2(o.arg(0), 0.02); // stabilising feedback
      if(fault != 4) // 4: the period is missed altogether
      {
        V2 y = xi + (ax == 2 ? V2(rot(ny) * bl) : bl);
        switch(fault)
        {
          case 1:
            y += v2(o.arg(0) + 1, 0.5);
            c.fault("measurement_outlier");
            break;
          case 2:
            y = lastY;
            z = z;
            c.fault("frozen_measurement");
            break;
          case 3:
            y.setZero();
            c.fault("zeroed_measurement");
            break;
        }
        inputs(y, z, ny, o.arg(0));
        lastY = y;
      }
      else
        c.fault("missed_period");
      xi = xi + m.om * m.dt * (xi - z);
      c.simTime += m.dt;
      yaw = ny;
      if(!o.arg(3)) upd();
      else
        c.fault("late_update");
    }
    else if(n == "in")
    {
      inputs(v2(o.arg(0), o.arg(2) ? 20. : 1.), v2(o.arg(0) + 7, 1.), yaw + double(o.arg(1)) * 1e-2, o.arg(0));
      c.simTime += m.dt;
    }
    else if(n == "upd")
      upd();
    else if(n == "reset")
    {
      Rng r{u64(o.arg(0))};
      bool wb = r.chance(0.5);
      V2 y = v2(o.arg(0) + 1, 1.), z = v2(o.arg(0) + 2, 1.), ib = v2(o.arg(0) + 3, 0.05), ub = v2(o.arg(0) + 4, 0.03).cwiseAbs() + V2::Constant(0.001);
      double ny = r.uni(-3, 3);
      if(ax == 1)
      {
        m.drift = r.uni(0.001, 0.1);
        m.ed = r.uni(0.001, 0.05);
        m.ez = r.uni(0.001, 0.05);
      }
      Mat P = Mat::Zero(2 * ax, 2 * ax), D = Mat::Zero(ax, ax);
      for(int i = 0; i < ax; ++i) D(i, i) = ub[i] * ub[i];
      P.topLeftCorner(ax, ax) = m.ed * m.ed * Mat::Identity(ax, ax);
      P.bottomRightCorner(ax, ax) = D;
      if(wb)
      {
        P.topLeftCorner(ax, ax) += D;
        P.topRightCorner(ax, ax) = -D;
        P.bottomLeftCorner(ax, ax) = -D;
      }
      m.start(wb ? Vec(y.head(ax) - ib.head(ax)) : Vec(y.head(ax)), ib.head(ax), P);
      m.zmp = z.head(ax);
      if(ax == 2)
      {
        m.R = rot(ny);
        yaw = ny;
        if(o.arg(0) & 1)
          LIB(e2->resetWithMeasurements(y, z, ny, wb, ib, ub));
        else
          LIB(e2->resetWithMeasurements(y, z, so::Matrix2(m.R), wb, ib, ub));
      }
      else
        LIB(e1->resetWithInputs(y[0], z[0], wb, m.drift, m.ed, m.ez, ib[0], ub[0]));
      c.fault("restart");
      same("after a reset");
    }
    else if(n == "omega")
    {
      m.om = par(o.arg(0), 2.5, 5);
      if(ax == 2)
      {
        LIB(e2->setLipmNaturalFrequency(m.om));
        c.check(LIB(e2->getLipmNaturalFrequency()) == m.om, "lipm-setting", "the natural frequency is not the one set");
      }
      else
        LIB(e1->setLipmNaturalFrequency(m.om));
    }
    else if(n == "dt")
    {
      m.dt = par(o.arg(0), 0.001, 0.02);
      if(ax == 2)
        LIB(e2->setSamplingTime(m.dt));
      else
        LIB(e1->setSamplingTime(m.dt));
      c.fault("clock_rate_change");
    }
    else if(n == "drift")
    {
      m.drift = par(o.arg(0), 1e-4, 0.5);
      if(ax == 2)
        LIB(e2->setBiasDriftPerSecond(m.drift));
      else
        LIB(e1->setBiasDriftPerSecond(m.drift));
    }
    else if(n == "ed")
    {
      m.ed = par(o.arg(0), 1e-3, 0.1);
      if(ax == 2)
        LIB(e2->setDcmMeasureErrorStd(m.ed));
      else
        LIB(e1->setDcmMeasureErrorStd(m.ed));
    }
    else if(n == "ez")
    {
      m.ez = par(o.arg(0), 1e-3, 0.1);
      if(ax == 2)
        LIB(e2->setZmpMeasureErrorStd(m.ez));
      else
        LIB(e1->setZmpMeasureErrorStd(m.ez));
    }
    else if(n == "limit")
    {
      if(ax != 2) return;
      m.limit = limits(o.arg(0));
      LIB(e2->setBiasLimit(m.limit));
    }
    else if(n == "bias" || n == "setdcm")
    {
      bool b = n == "bias";
      V2 v = v2(o.arg(0), b ? 0.05 : 0.5), un = v2(o.arg(0) + 1, 0.03).cwiseAbs() + V2::Constant(0.001);
      bool wu = o.arg(1) & 1;
      if(b)
        m.x.tail(ax) = v.head(ax);
      else
        m.x.head(ax) = v.head(ax);
      if(wu)
      {
        Mat D = Mat::Zero(ax, ax);
        for(int i = 0; i < ax; ++i) D(i, i) = un[i] * un[i];
        m.P.topRightCorner(ax, ax).setZero();
        m.P.bottomLeftCorner(ax, ax).setZero();
        if(b)
          m.P.bottomRightCorner(ax, ax) = D;
        else
          m.P.topLeftCorner(ax, ax) = D;
      }
      Arm g;
      if(ax == 2)
      {
        if(b)
          wu ? e2->setBias(v, un) : e2->setBias(v);
        else
          wu ? e2->setUnbiasedDCM(v, un) : e2->setUnbiasedDCM(v);
      }
      else
      {
        if(b)
          wu ? e1->setBias(v[0], un[0]) : e1->setBias(v[0]);
        else
          wu ? e1->setUnbiasedDCM(v[0], un[0]) : e1->setUnbiasedDCM(v[0]);
      }
    }
    else
      return;
    if(m.q.empty()) same("after an operation");
    c.state(mix64(u64(m.q.size()) * 16 + (m.limit.x() > 0) * 2 + (m.limit.y() > 0) + u64(ax) * 64, u64(m.clamps > 0) + u64(std::llabs(i64(yaw * 5)) % 32) * 4));
    c.fold(m.x);
  }
};
void common(Rng & r, Case & c)
{
  c.cfg["axes"] = r.chance(0.7) ? 2 : 1;
  for(const char * n : {"dt", "om", "drift", "ed", "ez"}) c.cfg[n] = r.range(0, 1000);
  for(const char * n : {"d0", "b0", "z0", "ud", "ub", "xi", "bl"}) c.cfg[n] = r.seed();
}
Case genModel(Rng & r, bool th)
{
  Case c;
  common(r, c);
  c.cfg["lim"] = r.chance(0.5) ? r.seed() : 0;
  double late = r.chance(0.4) ? 0 : r.uni(0.1, 0.8), turn = r.chance(0.3) ? 0 : r.uni(0.1, 1), set = r.chance(0.4) ? 0 : r.uni(0.02, 0.3);
  double plant = r.uni(0, 1), faulty = r.chance(0.5) ? 0 : r.uni(0, 0.3);
  i64 n = r.range(3, th ? 120 : 40);
  for(i64 i = 0; i < n; ++i)
  {
    if(r.chance(set))
    {
      static const char * s[] = {"omega", "dt", "drift", "ed", "ez", "limit", "bias", "setdcm", "reset", "upd"};
      std::string nm = s[r.range(0, 9)];
      if(nm == "limit" || nm == "bias" || nm == "setdcm" || nm == "reset")
        c.add(nm, {r.seed(), r.range(0, 1)});
      else if(nm == "upd")
        c.add(nm, {});
      else
        c.add(nm, {r.range(0, 1000)});
      continue;
    }
    if(r.chance(plant))
      c.add("plant", {r.seed(), r.chance(faulty) ? r.range(1, 4) : 0, r.chance(turn), r.chance(late)});
    else
    {
      c.add("in", {r.seed(), r.chance(turn) ? r.range(-200, 200) : 0, r.chance(0.05)});
      if(!r.chance(late)) c.add("upd", {});
    }
  }
  c.add("upd", {});
  return c;
}
void execModel(const Case & k, Ctx & c)
{
  Rig rig(c, k);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
    c.log("%s", k.ops[i].n.c_str());
  }
  if(rig.m.clamps) c.probe("bias_clamped");
  c.nontrivial = rig.m.steps > 2;
}
// liveness: faults, then a bounded number of healthy samples
Case genConv(Rng & r, bool th)
{
  Case c;
  common(r, c);
  c.cfg["conv"] = 1;
  double faulty = r.uni(0.05, 0.5), turn = r.chance(0.4) ? 0 : r.uni(0.1, 1);
  i64 n = r.range(5, th ? 120 : 60);
  for(i64 i = 0; i < n; ++i) c.add("plant", {r.seed(), r.chance(faulty) ? r.range(1, 4) : 0, r.chance(turn), r.chance(0.1)});
  c.add("heal", {r.seed(), r.chance(turn)});
  return c;
}
void execConv(const Case & k, Ctx & c)
{
  Rig rig(c, k);
  bool faulted = false;
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    const Op & o = k.ops[i];
    if(o.n != "heal")
    {
      rig.apply(o);
      faulted = faulted || (o.n == "plant" && o.arg(1));
      continue;
    }
    for(i64 j = 0; j < 1500; ++j) rig.apply(Op{"plant", {o.arg(0) + j, 0, o.arg(1), 0}});
    // the plant has moved on since the sample of the last period
    V2 wantB = rig.ax == 2 ? V2(rot(rig.yaw) * rig.bl) : rig.bl;
    double err = (rig.bias() - wantB.head(rig.ax)).norm();
    double ed = ((rig.dcm() + rig.bias()) - rig.lastY.head(rig.ax)).norm();
    c.log("residual bias error %g, dcm error %g", err, ed);
    c.check(err < 1e-3 && ed < 1e-3, "convergence", "1500 healthy samples after the faults the bias error is %g, the DCM error %g", err, ed);
    c.nontrivial = 1;
  }
}
Reg rC09a({"C09", "model", 50000, 1000000,
           "random histories of samples, late updates, turns, setting changes, resets and faulty measurements for both estimators, compared "
           "after every update with an independent model of the documented filter and the clamping rule; non-trivial: more than two filter "
           "steps; distinct: different op list",
           "LipmDcmEstimator, UnidimLipmDcmEstimator, LinearKalmanFilter", "robot and sensors (simulated pendulum)", genModel, execModel});
Reg rC09b({"C09", "recovery", 1500, 60000,
           "closed-loop pendulum with outliers, frozen, zeroed and missed samples, then 1500 healthy samples after which the true bias and DCM "
           "must be recovered; non-trivial: reached the recovery phase; distinct: different op list",
           "LipmDcmEstimator, UnidimLipmDcmEstimator, LinearKalmanFilter", "robot and sensors (simulated pendulum)", genConv, execConv});
} // namespace
} // namespace sim
