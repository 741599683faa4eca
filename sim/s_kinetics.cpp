// C16: the kinetics observer gives, after every history of contacts, sensors, settings and faults, what one
// predict/correct step of its model from the last estimate gives; invalid data never stay in the estimate.
#include "core.hpp"

#include <memory>

#include <state-observation/dynamics-estimators/kinetics-observer.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q4;
typedef Eigen::Matrix<double, 6, 1> V6;
typedef so::KineticsObserver O;
typedef so::kine::Kinematics K;

const double G = 9.8;
V3 grav()
{
  return V3(0, 0, G);
}
Q4 qexp(const V3 & v)
{
  double n = v.norm();
  if(n < 1e-12) return Q4(1, v.x() / 2, v.y() / 2, v.z() / 2);
  V3 a = v * (std::sin(n / 2) / n);
  return Q4(std::cos(n / 2), a.x(), a.y(), a.z());
}
V3 qlog(Q4 q)
{
  if(q.w() < 0) q.coeffs() = -q.coeffs();
  double n = q.vec().norm();
  if(n < 1e-12) return 2 * q.vec();
  return q.vec() * (2 * std::atan2(n, q.w()) / n);
}
M3 sk(const V3 & v)
{
  M3 m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}

struct Local // kinematics of a part of the robot in the observed frame
{
  V3 p = V3::Zero(), v = V3::Zero(), w = V3::Zero(), a = V3::Zero();
  Q4 q = Q4::Identity();
};
struct Given // what the user tells of it
{
  Local l;
  bool v = true, w = true, a = true;
  K kine() const
  {
    K k;
    k.position = l.p;
    k.orientation = l.q;
    if(v) k.linVel = l.v;
    if(w) k.angVel = l.w;
    if(a) k.linAcc = l.a;
    return k;
  }
};
struct Imu
{
  i64 time = 0;
  Local l;
  V6 y = V6::Zero();
  M3 Ra, Rg;
};
struct Contact
{
  bool set = false, fresh = true, known = false, updated = false, sensor = false;
  Local l;
  V6 y = V6::Zero();
  Mat R;
  M3 kp, kd, kpr, kdr;
};
struct Timed
{
  i64 t = 0;
  V3 v = V3::Zero();
};

struct Open : O // the noises are set by derived classes
{
  using O::O;
  using O::getMeasurementNoise;
  using O::getProcessNoise;
  using O::resetMeasurementNoise;
  using O::resetProcessNoise;
  using O::setMeasurementNoise;
  using O::setProcessNoise;
};
struct Shift : so::NoiseBase // a disturbance that is always the same; the last 'keep' components are left alone
{
  Vec v;
  const bool * pose = nullptr;
  Vec getNoisy(const Vec & x) override
  {
    Vec y = x;
    i64 n = std::min<i64>(v.size(), x.size() - (pose && *pose ? 4 : 0));
    y.head(n) += v.head(n);
    return y;
  }
};

struct Ref
{
  int nc, ni;
  double dt = 1e-6, mass = 50;
  bool bias = true, unm = false, acc = false, accSet = false;
  V3 addF = V3::Zero(), addM = V3::Zero();
  Timed com, comd, comdd, sig, sigd;
  M3 I = M3::Identity(), Id = M3::Zero();
  i64 It = 0;
  i64 kEst = 0, kData = 0;
  std::vector<Imu> imu;
  std::vector<Contact> con;
  bool pose = false;
  V3 poseP;
  Q4 poseQ;
  Mat poseR;
  Vec x, dx;
  Mat P, Q;
  // defaults
  M3 Ra, Rg;
  Mat Rw, Rp, Pkin, Pcon, Punm, Qcon, Qkin, Qunm;
  M3 Pb, Qb;
  Vec noise, spread;
  Vec inv; // what the rounding of an inverse may change in the estimate
  bool pnoise = false, mnoise = false;
  Shift pn, mn;
  Mat dA, dC, dR, dy, dxb; // for the event log

  Ref(int c, int i) : nc(c), ni(i), imu(size_t(i)), con(size_t(c))
  {
    x = Vec::Zero(nx());
    x[6] = 1;
    dx = Vec::Constant(nt(), 1e-6);
    P = Q = Mat::Zero(nt(), nt());
  }
  int nx() const
  {
    return 19 + 3 * ni + 13 * nc;
  }
  int nt() const
  {
    return 18 + 3 * ni + 12 * nc;
  }
  int xb(int i) const
  {
    return 13 + 3 * i;
  }
  int tb(int i) const
  {
    return 12 + 3 * i;
  }
  int xu() const
  {
    return 13 + 3 * ni;
  }
  int tu() const
  {
    return 12 + 3 * ni;
  }
  int xc(int i) const
  {
    return 19 + 3 * ni + 13 * i;
  }
  int tc(int i) const
  {
    return 18 + 3 * ni + 12 * i;
  }
  static Q4 quat(const Vec & v, int o)
  {
    return Q4(v[o + 3], v[o], v[o + 1], v[o + 2]);
  }
  std::vector<int> active() const
  {
    std::vector<int> a;
    auto add = [&](int o, int n) {
      for(int i = 0; i < n; ++i) a.push_back(o + i);
    };
    add(0, 12);
    if(bias) add(12, 3 * ni);
    if(unm) add(tu(), 6);
    for(int i = 0; i < nc; ++i)
      if(con[size_t(i)].set) add(tc(i), 12);
    return a;
  }
  void block(Mat & M, int o, const Mat & b)
  {
    int n = int(b.rows());
    M.middleRows(o, n).setZero();
    M.middleCols(o, n).setZero();
    M.block(o, o, n, n) = b;
  }
  void resetP()
  {
    block(P, 0, Pkin);
    for(int i = 0; i < ni; ++i) block(P, tb(i), Pb);
    block(P, tu(), Punm);
    for(int i = 0; i < nc; ++i)
      if(con[size_t(i)].set) block(P, tc(i), Pcon);
  }
  void start()
  {
    if(kEst != kData) return;
    ++kData;
    pose = false;
    for(auto & c : con) c.updated = c.sensor = false;
  }
  double scale = 1; // rounding of the quantities differentiated numerically

  void wrench(const Vec & z, V3 & f, V3 & m) const
  {
    f = addF + z.segment<3>(xu());
    m = addM + z.segment<3>(xu() + 3);
    for(int i = 0; i < nc; ++i)
    {
      const Contact & c = con[size_t(i)];
      if(!c.set || !c.known) continue;
      V3 fi = c.l.q * V3(z.segment<3>(xc(i) + 7));
      f += fi;
      m += c.l.q * V3(z.segment<3>(xc(i) + 10)) + c.l.p.cross(fi);
    }
  }
  void accelerations(const Vec & z, V3 & la, V3 & aa) const
  {
    V3 f, m;
    wrench(z, f, m);
    M3 R = quat(z, 3).toRotationMatrix();
    V3 w = R.transpose() * z.segment<3>(10);
    V3 cc = 2 * w.cross(comd.v) + w.cross(w.cross(com.v));
    M3 Ic = I + mass * sk(com.v) * sk(com.v);
    V3 al = Ic.inverse() * (m - Id * w - sigd.v - w.cross(I * w + sig.v) - com.v.cross(f - mass * (comdd.v + cc)));
    aa = R * al;
    la = R * (f / mass - comdd.v - cc - al.cross(com.v)) - grav();
  }
  Vec f(const Vec & z) const
  {
    Vec n = z;
    V3 la, aa;
    accelerations(z, la, aa);
    V3 v = z.segment<3>(7), w = z.segment<3>(10);
    Q4 q = qexp(w * dt + aa * dt * dt / 2) * quat(z, 3);
    n.head<3>() += v * dt + la * dt * dt / 2;
    n.segment<4>(3) = q.coeffs();
    n.segment<3>(7) = v + la * dt;
    n.segment<3>(10) = w + aa * dt;
    v = n.segment<3>(7);
    w = n.segment<3>(10);
    for(int i = 0; i < nc; ++i)
    {
      const Contact & c = con[size_t(i)];
      if(!c.set) continue;
      V3 arm = q * c.l.p;
      Q4 gq = q * c.l.q;
      M3 Rt = gq.toRotationMatrix().transpose();
      V3 gp = V3(n.head<3>()) + arm, gv = v + w.cross(arm) + q * c.l.v, gw = w + q * c.l.w;
      Q4 e = gq * quat(z, xc(i) + 3).conjugate();
      double s = e.w() < 0 ? -1 : 1;
      n.segment<3>(xc(i) + 7) = Rt * (c.kp * (V3(z.segment<3>(xc(i))) - gp) - c.kd * gv);
      n.segment<3>(xc(i) + 10) = Rt * (-0.5 * s * (c.kpr * e.vec()) - c.kdr * gw);
    }
    if(pnoise) n.head<13>() += pn.v;
    return n;
  }
  int measSize() const
  {
    int m = 0;
    if(kEst == kData) return 0;
    for(auto & s : imu) m += s.time == kData ? 6 : 0;
    for(auto & c : con) m += c.set && c.sensor ? 6 : 0;
    return m + (pose ? 7 : 0);
  }
  Vec h(const Vec & z) const
  {
    Vec y(measSize());
    V3 la, aa;
    accelerations(z, la, aa);
    Q4 q = quat(z, 3);
    V3 w = z.segment<3>(10);
    int o = 0;
    for(int i = 0; i < ni; ++i)
    {
      const Imu & s = imu[size_t(i)];
      if(s.time != kData) continue;
      V3 arm = q * s.l.p;
      V3 ga = la + aa.cross(arm) + w.cross(w.cross(arm)) + 2 * w.cross(q * s.l.v) + q * s.l.a;
      V3 gw = w + q * s.l.w;
      M3 Rt = (q * s.l.q).toRotationMatrix().transpose();
      y.segment<3>(o) = Rt * (ga + grav());
      y.segment<3>(o + 3) = Rt * gw;
      if(bias) y.segment<3>(o + 3) += z.segment<3>(xb(i));
      o += 6;
    }
    for(int i = 0; i < nc; ++i)
      if(con[size_t(i)].set && con[size_t(i)].sensor)
      {
        y.segment<6>(o) = z.segment<6>(xc(i) + 7);
        o += 6;
      }
    if(pose) y.segment<7>(o) = z.head<7>();
    if(mnoise)
    {
      int m = int(y.size()) - (pose ? 4 : 0);
      for(int i = 0; i < m && i < mn.v.size(); ++i) y[i] += mn.v[i];
    }
    return y;
  }
  void measured(Vec & y, Mat & R) const
  {
    int n = measSize(), o = 0;
    y = Vec(n);
    R = Mat::Zero(n - (pose ? 1 : 0), n - (pose ? 1 : 0));
    for(auto & s : imu)
      if(s.time == kData)
      {
        y.segment<6>(o) = s.y;
        R.block<3, 3>(o, o) = s.Ra;
        R.block<3, 3>(o + 3, o + 3) = s.Rg;
        o += 6;
      }
    for(auto & c : con)
      if(c.set && c.sensor)
      {
        y.segment<6>(o) = c.y;
        R.block<6, 6>(o, o) = c.R;
        o += 6;
      }
    if(pose)
    {
      y.segment<3>(o) = poseP;
      y.segment<4>(o + 3) = poseQ.coeffs();
      R.block<6, 6>(o, o) = poseR;
    }
  }
  Vec ydiff(const Vec & a, const Vec & b) const
  {
    if(!pose) return a - b;
    int n = int(a.size());
    Vec d(n - 1);
    d.head(n - 4) = a.head(n - 4) - b.head(n - 4);
    d.tail<3>() = qlog(quat(a, n - 4) * quat(b, n - 4).inverse());
    return d;
  }
  Vec sum(const Vec & z, const Vec & d) const
  {
    Vec n = z;
    n.head<3>() += d.head<3>();
    n.segment<4>(3) = (qexp(d.segment<3>(3)) * quat(z, 3)).coeffs();
    n.segment<6>(7) += d.segment<6>(6);
    if(bias) n.segment(13, 3 * ni) += d.segment(12, 3 * ni);
    if(unm) n.segment<6>(xu()) += d.segment<6>(tu());
    for(int i = 0; i < nc; ++i)
      if(con[size_t(i)].set)
      {
        n.segment<3>(xc(i)) += d.segment<3>(tc(i));
        n.segment<4>(xc(i) + 3) = (qexp(d.segment<3>(tc(i) + 3)) * quat(z, xc(i) + 3)).coeffs();
        n.segment<6>(xc(i) + 7) += d.segment<6>(tc(i) + 6);
      }
    return n;
  }
  Vec diff(const Vec & a, const Vec & b) const
  {
    Vec d = Vec::Zero(nt());
    d.head<3>() = a.head<3>() - b.head<3>();
    d.segment<3>(3) = qlog(quat(a, 3) * quat(b, 3).inverse());
    d.segment<6>(6) = a.segment<6>(7) - b.segment<6>(7);
    if(bias) d.segment(12, 3 * ni) = a.segment(13, 3 * ni) - b.segment(13, 3 * ni);
    if(unm) d.segment<6>(tu()) = a.segment<6>(xu()) - b.segment<6>(xu());
    for(int i = 0; i < nc; ++i)
      if(con[size_t(i)].set)
      {
        d.segment<3>(tc(i)) = a.segment<3>(xc(i)) - b.segment<3>(xc(i));
        d.segment<3>(tc(i) + 3) = qlog(quat(a, xc(i) + 3) * quat(b, xc(i) + 3).inverse());
        d.segment<6>(tc(i) + 6) = a.segment<6>(xc(i) + 7) - b.segment<6>(xc(i) + 7);
      }
    return d;
  }
  // one predict/correct step; jitter: with the roundings of another order of operations
  bool correct(u64 jitter, Vec & xn, Mat & Pn)
  {
    Vec x0 = x;
    if(jitter) x0.array() *= 1 + rvec(jitter, x.size(), 5e-16).array();
    auto J = [&](Vec v, u64 s) {
      if(jitter) v.array() *= 1 + rvec(mix64(jitter, s), v.size(), 5e-16).array();
      return v;
    };
    int n = nt();
    Vec xbar = f(x0);
    Mat A = Mat::Zero(n, n);
    std::vector<int> act = active();
    Vec d = Vec::Zero(n);
    for(int i : act)
    {
      d.setZero();
      d[i] = dx[i];
      A.col(i) = diff(J(f(J(sum(x0, d), u64(i) + 5007)), u64(i) + 7), xbar) / dx[i];
    }
    std::vector<int> idle; // what is not estimated has columns of rounding noise when differentiated numerically
    if(jitter)
    {
      std::vector<char> is(size_t(n), 0);
      for(int i : act) is[size_t(i)] = 1;
      for(int i = 0; i < n; ++i)
        if(!is[size_t(i)]) idle.push_back(i);
    }
    for(int i : idle) A.col(i) = diff(J(f(J(x0, u64(i) + 5007)), u64(i) + 7), xbar) / dx[i];
    Vec yb = h(xbar), y;
    Mat R;
    measured(y, R);
    Mat C = Mat::Zero(R.rows(), n);
    for(int i : act)
    {
      d.setZero();
      d[i] = dx[i];
      C.col(i) = ydiff(J(h(J(sum(xbar, d), u64(i) + 6007)), u64(i) + 1007), yb) / dx[i];
    }
    for(int i : idle) C.col(i) = ydiff(J(h(J(xbar, u64(i) + 6007)), u64(i) + 1007), yb) / dx[i];
    if(!jitter) dA = A, dC = C, dR = R, dy = yb, dxb = xbar;
    Mat Pb_ = Q + A * P * A.transpose();
    if(!jitter) noise = 1e-8 * Pb_.diagonal().cwiseAbs();
    if(R.rows() == 0)
    {
      xn = xbar;
      Pn = 0.5 * (Pb_ + Pb_.transpose());
      return !(xbar.cwiseAbs().maxCoeff() > 1e7);
    }
    Mat S = R + C * Pb_ * C.transpose();
    Mat Ss = 0.5 * (S + S.transpose());
    bool ok = true;
    if(!finite(S) || !finite(xbar) || !finite(y))
    {
      xn = Vec::Constant(x.size(), std::nan(""));
      Pn = Mat::Constant(n, n, std::nan(""));
      // invalid data must be what made it so, not an overflow
      return finite(S) || !finite(xbar) || !finite(yb);
    }
    if(jitter)
    {
      Mat e = rmat(jitter, S.rows(), S.cols(), 5e-16);
      Ss.array() *= 1 + (e + e.transpose()).array();
    }
    Vec s = Ss.diagonal().cwiseAbs().cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
    Mat N = s.asDiagonal() * Ss * s.asDiagonal();
    auto ldlt = N.ldlt();
    if(!jitter) noise += 1e-10 / std::max(ldlt.rcond(), 1e-14) * Pb_.diagonal().cwiseAbs();
    if(!ldlt.isPositive() || !(ldlt.rcond() > 1e-12) || !(xbar.cwiseAbs().maxCoeff() < 1e7)) ok = false;
    Mat Kg = Pb_ * C.transpose() * (s.asDiagonal() * Mat(ldlt.solve(Mat(s.asDiagonal()))));
    xn = sum(xbar, Kg * ydiff(y, yb));
    if(!jitter)
    { // the inverse of the innovation covariance may be computed without scaling
      double rel = std::min(1e-3, 2e-14 / std::max(Ss.ldlt().rcond(), 1e-16));
      inv = rel * (Kg.cwiseAbs() * ydiff(y, yb).cwiseAbs());
      noise += rel * Pb_.diagonal().cwiseAbs();
    }
    Pn = (Mat::Identity(n, n) - Kg * C) * Pb_;
    Pn = (0.5 * (Pn + Pn.transpose())).eval();
    if(!(Pn.cwiseAbs().maxCoeff() < 1e9) || !(xn.cwiseAbs().maxCoeff() < 1e7)) ok = false;
    return ok;
  }
  bool invalid = false;
  bool step(Ctx & c)
  {
    Disarm g;
    Vec xn;
    Mat Pn;
    inv.resize(0);
    bool ok = correct(0, xn, Pn);
    spread = Vec::Zero(nt());
    if(inv.size() == nt() && finite(inv)) spread += inv;
    invalid = !finite(xn);
    if(ok && !invalid)
    {
      Mat D = Mat::Zero(nt(), nt());
      for(u64 j = 1; j <= 2 && ok; ++j)
      {
        Vec xm;
        Mat Pm;
        if(!correct(mix64(j, u64(kData)), xm, Pm) || !finite(xm))
        {
          ok = false;
          break;
        }
        spread = spread.cwiseMax(diff(xm, xn).cwiseAbs());
        D = D.cwiseMax((Pm - Pn).cwiseAbs());
      }
      if(ok) noise += 1e6 * D.rowwise().maxCoeff();
    }
    if(invalid)
    {
      P.setZero();
      resetP();
      noise.setZero(nt());
    }
    else
    {
      x = xn;
      P = Pn;
    }
    kEst = kData;
    (void)c;
    return ok;
  }
};

Given around(u64 s, const Local & base, const Local * prev)
{
  Given g;
  u64 h = mix64(s, 77);
  g.v = h & 1;
  g.w = (h >> 1) & 1;
  g.a = (h >> 2) & 1;
  bool full = (h >> 3) & 1;
  if(full) g.v = g.w = g.a = true;
  double r = full ? 0.05 : 1e-4; // without velocities, they are differentiated
  const Local & b = full || !prev ? base : *prev;
  g.l.p = b.p + V3(rvec(s, 3, r));
  g.l.q = qexp(rvec(mix64(s, 1), 3, r)) * b.q;
  if((h >> 4) % 4 == 0) g.l.q.coeffs() = -g.l.q.coeffs();
  g.l.v = rvec(mix64(s, 2), 3, 0.1);
  g.l.w = rvec(mix64(s, 3), 3, 0.1);
  g.l.a = rvec(mix64(s, 4), 3, 0.5);
  return g;
}
// what the user gave, completed by differences with the previous sample
void follow(Local & l, const Given & g, bool first, double dt, bool keepAcc)
{
  Local n = g.l;
  if(!g.v) n.v = first ? V3(V3::Zero()) : V3((g.l.p - l.p) / dt);
  if(!g.w) n.w = first ? V3(V3::Zero()) : V3(qlog(g.l.q * l.q.conjugate()) / dt);
  if(!g.a || !keepAcc) n.a = first ? V3(V3::Zero()) : V3((n.v - l.v) / dt);
  if(!keepAcc) n.a.setZero();
  l = n;
}

void exec(const Case & kase, Ctx & c)
{
  int nc = int(1 + kase.c("contacts") % 4), ni = int(1 + kase.c("imus") % 3);
  Ref r(nc, ni);
  std::unique_ptr<Open> p;
  {
    Arm g;
    p.reset(new Open(unsigned(nc), unsigned(ni)));
  }
  Open & o = *p;
  r.mn.pose = &r.pose;
  i64 steps = 0;
  u64 lastOp = 0;

  // nominal placement of the parts
  std::vector<Local> nomC(static_cast<size_t>(nc)), nomI(static_cast<size_t>(ni));
  for(int i = 0; i < nc; ++i)
  {
    nomC[size_t(i)].p = V3((i & 2) ? 0.15 : -0.15, (i & 1) ? 0.1 : -0.1, -0.8);
    nomC[size_t(i)].q = rquat(u64(kase.c("place")) + u64(i), i < 2 ? 0.3 : 2.5);
  }
  for(int i = 0; i < ni; ++i)
  {
    nomI[size_t(i)].p = rvec(u64(kase.c("place")) + 50 + u64(i), 3, 0.3);
    nomI[size_t(i)].q = rquat(u64(kase.c("place")) + 60 + u64(i), 3);
  }
  auto compareSettings = [&](const char * what) {
    Mat P = LIB(Mat(o.getStateCovarianceMat())), Q = LIB(Mat(o.getEKF().getProcessCovariance()));
    c.check(P.rows() == r.nt() && P.cols() == r.nt() && Q.rows() == r.nt(), "sizes", "the covariance is %lldx%lld", (long long)P.rows(), (long long)P.cols());
    std::vector<int> a = r.active();
    for(int i : a)
      for(int j : a)
      {
        c.check(std::fabs(P(i, j) - r.P(i, j)) <= 1e-12 * (std::fabs(r.P(i, j)) + 1e-9), "covariance-setting", "%s: the state covariance (%d,%d) is %g instead of %g", what, i, j,
                P(i, j), r.P(i, j));
        c.check(std::fabs(Q(i, j) - r.Q(i, j)) <= 1e-12 * (std::fabs(r.Q(i, j)) + 1e-9), "covariance-setting", "%s: the process covariance (%d,%d) is %g instead of %g", what, i, j,
                Q(i, j), r.Q(i, j));
      }
    r.P = P;
    r.Q = Q;
  };
  auto compareState = [&](const char * what, double tol, bool withSpread) {
    Vec g = LIB(Vec(o.getCurrentStateVector()));
    c.check(g.size() == r.nx() && LIB(o.getStateSize()) == r.nx(), "sizes", "the state has %lld components, not %d", (long long)g.size(), r.nx());
    c.check(finite(g), "not-finite", "%s: the state contains invalid numbers", what);
    Vec d = r.diff(g, r.x);
    if(c.verbose)
    {
      c.log("%s", what);
      for(i64 i = 0; i < g.size(); ++i)
        if(std::fabs(g[i] - r.x[i]) > 1e-9 * (1 + std::fabs(g[i]))) c.log("  x[%lld] = %.12g, reference %.12g", (long long)i, g[i], r.x[i]);
    }
    auto part = [&](int t, int n, double ref, const char * name) {
      double e = d.segment(t, n).cwiseAbs().maxCoeff();
      double lim = tol * (1 + ref) + (withSpread && r.spread.size() ? 100 * r.spread.segment(t, n).maxCoeff() : 0);
      c.check(e <= lim, "estimate", "%s: the %s is off by %g (allowed: %g)", what, name, e, lim);
    };
    part(0, 3, r.x.head<3>().norm(), "position");
    part(3, 3, 1, "orientation");
    part(6, 3, r.x.segment<3>(7).norm(), "linear velocity");
    part(9, 3, r.x.segment<3>(10).norm(), "angular velocity");
    c.check(std::fabs(g.segment<4>(3).norm() - 1) < 1e-6, "unit-quaternion", "%s: the orientation has norm %g", what, g.segment<4>(3).norm());
    for(int i = 0; i < ni; ++i)
    {
      double e = (g.segment<3>(r.xb(i)) - r.x.segment<3>(r.xb(i))).cwiseAbs().maxCoeff();
      double lim = tol * (1 + r.x.segment<3>(r.xb(i)).norm()) + (withSpread && r.spread.size() ? 100 * r.spread.segment(r.tb(i), 3).maxCoeff() : 0);
      c.check(e <= lim, "estimate", "%s: the gyrometer bias %d is off by %g", what, i, e);
    }
    {
      double e = (g.segment<6>(r.xu()) - r.x.segment<6>(r.xu())).cwiseAbs().maxCoeff();
      double lim = tol * (1 + r.x.segment<6>(r.xu()).norm()) + (withSpread && r.spread.size() ? 100 * r.spread.segment(r.tu(), 6).maxCoeff() : 0);
      c.check(e <= lim, "estimate", "%s: the unmodeled wrench is off by %g", what, e);
    }
    for(int i = 0; i < nc; ++i)
      if(r.con[size_t(i)].set)
      {
        part(r.tc(i), 3, r.x.segment<3>(r.xc(i)).norm(), "contact position");
        part(r.tc(i) + 3, 3, 1, "contact orientation");
        part(r.tc(i) + 6, 3, r.x.segment<3>(r.xc(i) + 7).norm(), "contact force");
        part(r.tc(i) + 9, 3, r.x.segment<3>(r.xc(i) + 10).norm(), "contact torque");
        c.check(std::fabs(g.segment<4>(r.xc(i) + 3).norm() - 1) < 1e-6, "unit-quaternion", "%s: the orientation of contact %d has norm %g", what, i, g.segment<4>(r.xc(i) + 3).norm());
      }
    return g;
  };
  auto kineEq = [&](const K & k, bool acc, const char * what) {
    c.check(k.position.isSet() && k.orientation.isSet() && k.linVel.isSet() && k.angVel.isSet(), "kinematics", "%s are incomplete", what);
    c.close(V3(k.position()), r.x.head<3>(), 1e-12, "kinematics", what);
    c.check(qlog(k.orientation.toQuaternion() * Ref::quat(r.x, 3).inverse()).norm() < 1e-9, "kinematics", "%s: the orientation differs from the state", what);
    c.close(V3(k.linVel()), r.x.segment<3>(7), 1e-12, "kinematics", what);
    c.close(V3(k.angVel()), r.x.segment<3>(10), 1e-12, "kinematics", what);
    c.check(k.linAcc.isSet() == acc && k.angAcc.isSet() == acc, "kinematics", "%s: accelerations %s", what, acc ? "are missing" : "are given although not estimated");
    if(acc)
    {
      V3 la, aa;
      r.accelerations(r.x, la, aa);
      if(!finite(la) || !finite(aa)) return;
      double sc = 1 + r.x.cwiseAbs().maxCoeff();
      (void)sc;
      c.close(V3(k.linAcc()), la, 1e-8, "accelerations", what);
      c.close(V3(k.angAcc()), aa, 1e-8, "accelerations", what);
    }
  };
  bool accStale = false; // the inputs changed since the accelerations were estimated
  auto query = [&](u64 s) {
    switch(s % 9)
    {
      case 0:
      {
        K k = LIB(K(o.getKinematics()));
        if(!(r.accSet && accStale)) kineEq(k, r.accSet, "the estimated kinematics");
        break;
      }
      case 1:
      {
        K k = LIB(K(o.estimateAccelerations()));
        r.accSet = true;
        accStale = false;
        kineEq(k, true, "the kinematics with accelerations");
        kineEq(LIB(K(o.getKinematics())), true, "the estimated kinematics");
        break;
      }
      case 2:
      {
        Given g = around(s, nomI[0], nullptr);
        g.v = g.w = true;
        g.a = false;
        K k = LIB(K(o.getKinematicsOf(g.kine())));
        Q4 q = Ref::quat(r.x, 3);
        V3 arm = q * g.l.p, w = r.x.segment<3>(10);
        c.close(V3(k.position()), r.x.head<3>() + arm, 1e-9, "kinematics-of", "the position of a part");
        c.close(V3(k.linVel()), r.x.segment<3>(7) + w.cross(arm) + q * g.l.v, 1e-9, "kinematics-of", "the linear velocity of a part");
        c.close(V3(k.angVel()), w + q * g.l.w, 1e-9, "kinematics-of", "the angular velocity of a part");
        break;
      }
      case 3:
        for(int i = 0; i < nc; ++i)
          if(r.con[size_t(i)].set)
          {
            c.close(LIB(V6(o.getContactWrench(i))), V6(r.x.segment<6>(r.xc(i) + 7)), 1e-12, "contact-wrench", "the contact wrench");
            K k = LIB(K(o.getContactPosition(i)));
            c.close(V3(k.position()), r.x.segment<3>(r.xc(i)), 1e-12, "contact-pose", "the position of a contact");
            c.check(qlog(k.orientation.toQuaternion() * Ref::quat(r.x, r.xc(i) + 3).inverse()).norm() < 1e-9, "contact-pose", "the orientation of contact %d differs from the state", i);
          }
        break;
      case 4:
      {
        std::vector<int> l = LIB(o.getListOfContacts()), w;
        for(int i = 0; i < nc; ++i)
          if(r.con[size_t(i)].set) w.push_back(i);
        c.check(l == w, "contact-list", "the list of contacts has %zu elements, %zu are set", l.size(), w.size());
        c.check(LIB(o.getNumberOfContacts()) == so::Index(w.size()), "contact-list", "%lld contacts are counted, %zu are set", (long long)o.getNumberOfContacts(), w.size());
        break;
      }
      case 5: c.close(LIB(V6(o.getUnmodeledWrench())), V6(r.x.segment<6>(r.xu())), 1e-12, "unmodeled-wrench", "the unmodeled wrench"); break;
      case 6:
      {
        Vec y;
        Mat R;
        Vec g = LIB(Vec(o.getMeasurementVector()));
        c.check(LIB(o.getMeasurementSize()) == r.measSize() && g.size() == r.measSize(), "measurements", "there are %lld measurements, %d were given", (long long)g.size(), r.measSize());
        if(r.measSize())
        {
          r.measured(y, R);
          if(finite(y)) c.close(g, y, 1e-12, "measurements", "the vector of measurements");
        }
        break;
      }
      case 7: c.check(LIB(o.getStateVectorTimeIndex()) == r.kEst, "time", "the time of the estimate is %lld instead of %lld", (long long)o.getStateVectorTimeIndex(), (long long)r.kEst); break;
      default:
      {
        // the arithmetics of the state are those of the estimator
        Vec d = rvec(s, r.nt(), 0.3), z = LIB(Vec(o.stateSum(r.x, d))), w = r.sum(r.x, d);
        c.close(r.diff(z, w), Vec::Zero(r.nt()), 1e-7, "arithmetics", "the sum of a state and a variation");
        Vec e = LIB(Vec(o.stateDifference(z, r.x)));
        c.close(e, r.diff(w, r.x), 1e-7, "arithmetics", "the difference of two states");
        break;
      }
    }
  };
  auto observe = [&](const char * what) { // outputs that must not have changed
    Vec g = compareState(what, 1e-12, false);
    r.x = g;
  };

  auto giveContact = [&](int i, u64 s, int mode, V6 * y, bool nan) {
    Contact & k = r.con[size_t(i)];
    Given g = around(mix64(s, 100 + u64(i)), nomC[size_t(i)], k.fresh ? nullptr : &k.l);
    g.a = false;
    if(k.updated) g.v = g.w = true; // told twice in the iteration: the last one counts
    if(nan) g.l.p[i64(s % 3)] = std::nan("");
    if(k.updated)
      k.l = g.l;
    else
      follow(k.l, g, k.fresh, r.dt, false);
    k.l.a.setZero();
    k.fresh = false;
    k.known = true;
    k.updated = true;
    V6 yy = y ? *y : V6::Zero();
    K kk = g.kine();
    if(mode == 0)
    {
      k.sensor = false;
      LIB((o.updateContactWithNoSensor(kk, unsigned(i)), 0));
    }
    else if(mode == 1)
    {
      k.sensor = true;
      k.y = yy;
      k.R = r.Rw;
      LIB((o.updateContactWithWrenchSensor(yy, kk, unsigned(i)), 0));
    }
    else
    {
      k.sensor = true;
      k.y = yy;
      k.R = rspd(mix64(s, 9), 6, 1e-3, 1e1);
      so::Matrix6 R = k.R;
      LIB((o.updateContactWithWrenchSensor(yy, R, kk, unsigned(i)), 0));
    }
  };
  auto update = [&](u64 s) {
    bool pending = r.kEst != r.kData;
    for(int i = 0; pending && i < nc; ++i)
      if(r.con[size_t(i)].set && !r.con[size_t(i)].updated) giveContact(i, mix64(s, 3), 0, nullptr, false);
    Vec before = r.x;
    bool ok = true;
    if(pending) ok = r.step(c);
    Vec ret;
    ret = LIB(Vec(o.update()));
    c.check(ret.size() == r.nx(), "sizes", "update returns %lld components", (long long)ret.size());
    if(pending)
    {
      r.accSet = r.acc;
      accStale = false;
    }
    if(c.verbose && pending)
    {
      auto dump = [&](const char * name, const Mat & a, const Mat & b) {
        if(a.rows() != b.rows() || a.cols() != b.cols()) return c.log("%s sizes %lldx%lld %lldx%lld", name, (long long)a.rows(), (long long)a.cols(), (long long)b.rows(), (long long)b.cols());
        int n = 0;
        for(i64 i = 0; i < a.rows(); ++i)
          for(i64 j = 0; j < a.cols(); ++j)
            if(!(std::fabs(a(i, j) - b(i, j)) <= 1e-9 * (1 + std::fabs(a(i, j)))) && n++ < 12) c.log("  %s(%lld,%lld) = %.12g, reference %.12g", name, (long long)i, (long long)j, a(i, j), b(i, j));
      };
      dump("A", o.getEKF().getA(), r.dA);
      dump("C", o.getEKF().getC(), r.dC);
      dump("R", o.getEKF().getR(), r.dR);
      dump("y", o.getEKF().getLastPredictedMeasurement(), r.dy);
      dump("xbar", o.getEKF().getLastPrediction(), r.dxb);
    }
    const char * what = pending ? (r.invalid ? "update with invalid data" : "update") : "update without data";
    if(!ok)
    {
      c.probe("not comparable (ill conditioned)");
      r.x = LIB(Vec(o.getCurrentStateVector()));
      c.check(finite(r.x), "not-finite", "%s: the state contains invalid numbers", what);
      r.P = LIB(Mat(o.getStateCovarianceMat()));
    }
    else
    {
      Vec g = compareState(what, pending ? 1e-6 : 1e-12, pending);
      r.x = g;
      if(pending)
      {
        Mat P = LIB(Mat(o.getStateCovarianceMat()));
        c.check(finite(P), "not-finite", "%s: the covariance contains invalid numbers", what);
        c.check(P == Mat(P.transpose()), "asymmetric", "%s: the covariance is not symmetric", what);
        std::vector<int> a = r.active();
        for(int i : a)
          for(int j : a)
          {
            double si = std::sqrt(std::max(std::fabs(r.P(i, i)), 0.) + r.noise[i]) + 1e-9, sj = std::sqrt(std::max(std::fabs(r.P(j, j)), 0.) + r.noise[j]) + 1e-9;
            double lim = 1e-4 * si * sj;
            c.check(std::fabs(P(i, j) - r.P(i, j)) <= lim, "estimate-covariance", "%s: the covariance (%d,%d) is %g instead of %g (allowed: %g)", what, i, j, P(i, j), r.P(i, j), lim);
          }
        r.P = P;
      }
      if(r.accSet || !pending)
        if(!(accStale && r.accSet)) kineEq(LIB(K(o.getKinematics())), r.accSet, "the estimated kinematics");
    }
    c.check(ret == r.x, "returned", "update does not return the current state");
    c.check(LIB(o.getStateVectorTimeIndex()) == r.kEst, "time", "the time of the estimate is %lld instead of %lld", (long long)o.getStateVectorTimeIndex(), (long long)r.kEst);
    c.check(LIB(o.getMeasurementSize()) == 0, "measurements", "measurements are left after the update");
    c.fold(ret);
    if(pending)
    {
      ++steps;
      c.simTime += r.dt;
      int nset = 0, nsens = 0;
      for(auto & k : r.con) nset += k.set, nsens += k.set && k.sensor;
      c.state(mix64(lastOp, u64(nset) * 64 + u64(nsens) * 8 + u64(r.unm) * 4 + u64(r.bias) * 2 + u64(r.invalid)));
      if(r.invalid) c.probe("estimate invalid, last one kept");
      r.invalid = false;
    }
  };

  Op first;
  first.n = "init";
  first.a = {0, 0};
  const bool given = !kase.ops.empty() && kase.ops[0].n == "init"; // always initialised, also in a minimised trace
  for(size_t n = given ? 1 : 0; n <= kase.ops.size(); ++n)
  {
    c.opIndex = n ? int(n) - 1 : 0;
    const Op & op = n ? kase.ops[n - 1] : first;
    u64 s = u64(op.arg(1));
    if(op.n == "init")
    {
      // sane uncertainties: the defaults contain infinite-like ones
      r.Ra = M3::Identity() * 1e-4;
      r.Rg = M3::Identity() * 1e-8;
      Eigen::Matrix<double, 6, 1> dw, dp;
      dw << V3::Constant(1e-8), V3::Constant(1e-10);
      dp << V3::Constant(1e-4), V3::Constant(1e-3);
      r.Rw = Mat(dw.asDiagonal());
      r.Rp = Mat(dp.asDiagonal());
      if(op.arg(0) == 0)
      {
        r.Ra = rspd(s, 3, 1e-4, 1e-2);
        r.Rg = rspd(mix64(s, 1), 3, 1e-6, 1e-4);
        r.Rw = rspd(mix64(s, 2), 6, 1e-2, 1e1);
        r.Rp = rspd(mix64(s, 3), 6, 1e-6, 1e-3);
        LIB((o.setIMUDefaultCovarianceMatrix(r.Ra, r.Rg), 0));
        LIB((o.setContactWrenchSensorDefaultCovarianceMatrix(so::Matrix6(r.Rw)), 0));
        LIB((o.setAbsolutePoseSensorDefaultCovarianceMatrix(so::Matrix6(r.Rp)), 0));
      }
      r.Pkin = rspd(mix64(s, 4), 12, 1e-5, 1e-3);
      r.Pb = rspd(mix64(s, 5), 3, 1e-8, 1e-4);
      r.Punm = rspd(mix64(s, 6), 6, 1e-1, 1e1);
      r.Pcon = Mat::Zero(12, 12);
      r.Pcon.block(0, 0, 6, 6) = rspd(mix64(s, 7), 6, 1e-7, 1e-4);
      r.Pcon.block(6, 6, 6, 6) = rspd(mix64(s, 8), 6, 1e-1, 1e2);
      Vec d(12);
      d = Vec::Constant(12, 1e-8);
      r.Qkin = d.asDiagonal();
      r.Qcon = d.asDiagonal();
      r.Qb = M3::Identity() * 1e-12;
      r.Qunm = Mat::Identity(6, 6) * 1e-8;
      Arm g;
      o.setKinematicsInitCovarianceDefault(r.Pkin);
      o.setGyroBiasInitCovarianceDefault(r.Pb);
      o.setUnmodeledWrenchInitCovMatDefault(so::Matrix6(r.Punm));
      o.setContactInitCovMatDefault(so::Matrix12(r.Pcon));
      o.resetStateCovarianceMat();
      r.resetP();
      o.resetProcessCovarianceMat();
      r.block(r.Q, 0, r.Qkin);
      for(int i = 0; i < ni; ++i) r.block(r.Q, r.tb(i), r.Qb);
      r.block(r.Q, r.tu(), r.Qunm);
      r.dt = 1e-3 * double(1 + kase.c("dt") % 5);
      o.setSamplingTime(r.dt);
      compareSettings("initialisation");
    }
    else if(op.n == "state")
    {
      bool f = s & 1, v = (s >> 1) & 1;
      switch(((op.arg(0) % 5) + 5) % 5)
      {
        case 0:
        case 1:
        {
          r.x.head<3>() = rvec(s, 3, 1);
          r.x.segment<4>(3) = rquat(mix64(s, 1), 3.1).coeffs();
          if((s >> 3) & 1) r.x.segment<4>(3) *= -1;
          r.x.segment<6>(7) = rvec(mix64(s, 2), 6, 0.3);
          K k;
          k.position = V3(r.x.head<3>());
          if((s >> 2) & 1)
            k.orientation = Ref::quat(r.x, 3);
          else
            k.orientation = so::Matrix3(Ref::quat(r.x, 3).toRotationMatrix());
          k.linVel = V3(r.x.segment<3>(7));
          k.angVel = V3(r.x.segment<3>(10));
          if(f)
            for(int i = 0; i < nc; ++i)
              if(r.con[size_t(i)].set) r.x.segment<6>(r.xc(i) + 7).setZero();
          if(v)
          {
            r.block(r.P, 0, r.Pkin);
            if(f)
              for(int i = 0; i < nc; ++i)
                if(r.con[size_t(i)].set) r.block(r.P, r.tc(i), r.Pcon);
          }
          LIB((o.setStateKinematics(k, f, v), 0));
          r.accSet = false;
          kineEq(LIB(K(o.getKinematics())), false, "the kinematics given");
          break;
        }
        case 2:
        {
          int i = int((s >> 5) % u64(ni));
          V3 b = rvec(s, 3, 0.05);
          r.x.segment<3>(r.xb(i)) = b;
          if(v) r.block(r.P, r.tb(i), r.Pb);
          if(i == 0 && v && f)
            LIB((o.setGyroBias(b), 0));
          else
            LIB((o.setGyroBias(b, unsigned(i), v), 0));
          break;
        }
        case 3:
        {
          V6 w = rvec(s, 6, 5);
          r.x.segment<6>(r.xu()) = w;
          if(v) r.block(r.P, r.tu(), r.Punm);
          LIB((o.setStateUnmodeledWrench(w, v), 0));
          accStale = true;
          break;
        }
        default:
        {
          Vec z = r.x;
          z.head<3>() += rvec(s, 3, 0.01);
          z.segment<4>(3) = (qexp(rvec(mix64(s, 1), 3, 0.01)) * Ref::quat(z, 3)).coeffs();
          z.segment<6>(7) = rvec(mix64(s, 2), 6, 0.1);
          for(int i = 0; i < nc; ++i)
            if(r.con[size_t(i)].set) z.segment<6>(r.xc(i) + 7) += rvec(mix64(s, 3), 6, 10);
          r.x = z;
          if(v) r.resetP();
          LIB((o.setStateVector(z, v), 0));
          r.accSet = false;
          break;
        }
      }
      observe("a state given");
      compareSettings("a state given");
    }
    else if(op.n == "config")
    {
      bool b = s & 1;
      int im = int((s >> 3) % u64(ni)), ct = -1;
      for(int i = 0, k = int((s >> 6) % u64(nc)); i < nc; ++i)
        if(r.con[size_t((i + k) % nc)].set) ct = (i + k) % nc;
      accStale = true;
      Arm g;
      switch(((op.arg(0) % 34) + 34) % 34)
      {
        case 0: o.setMass(r.mass = 30 + double(s % 40)); break;
        case 1: o.setSamplingTime(r.dt = 1e-3 * double(1 + s % 5)); break;
        case 2:
        case 3: o.setWithUnmodeledWrench(r.unm = b); break;
        case 4:
        case 5: o.setWithGyroBias(r.bias = b); break;
        case 6: o.setWithAccelerationEstimation(r.acc = b); break;
        case 7:
          r.addF = rvec(s, 3, 20);
          r.addM = rvec(mix64(s, 1), 3, 3);
          o.setAdditionalWrench(r.addF, r.addM);
          break;
        case 8:
          r.Ra = rspd(s, 3, 1e-4, 1e-2);
          r.Rg = rspd(mix64(s, 1), 3, 1e-6, 1e-4);
          o.setIMUDefaultCovarianceMatrix(r.Ra, r.Rg);
          break;
        case 9:
          r.Rw = rspd(s, 6, 1e-2, 1e1);
          o.setContactWrenchSensorDefaultCovarianceMatrix(so::Matrix6(r.Rw));
          break;
        case 10:
          r.Rp = rspd(s, 6, 1e-6, 1e-3);
          o.setAbsolutePoseSensorDefaultCovarianceMatrix(so::Matrix6(r.Rp));
          break;
        case 11:
        {
          Mat m = rspd(s, 12, 1e-6, 1e-3);
          r.block(r.P, 0, m);
          o.setKinematicsStateCovariance(m);
          break;
        }
        case 12:
          r.Pkin = rspd(s, 12, 1e-6, 1e-3);
          o.setKinematicsInitCovarianceDefault(r.Pkin);
          break;
        case 13:
        {
          Mat m = rspd(s, 12, 1e-8, 1e-6);
          r.block(r.Q, 0, m);
          o.setKinematicsProcessCovariance(m);
          break;
        }
        case 14:
        {
          M3 m = rspd(s, 3, 1e-7, 1e-3);
          r.block(r.P, r.tb(im), m);
          o.setGyroBiasStateCovariance(m, unsigned(im));
          break;
        }
        case 15:
          r.Pb = rspd(s, 3, 1e-7, 1e-3);
          o.setGyroBiasInitCovarianceDefault(r.Pb);
          break;
        case 16:
        {
          M3 m = rspd(s, 3, 1e-10, 1e-6);
          r.block(r.Q, r.tb(im), m);
          o.setGyroBiasProcessCovariance(m, unsigned(im));
          break;
        }
        case 17:
        {
          Mat m = rspd(s, 6, 1e-1, 1e1);
          r.block(r.P, r.tu(), m);
          o.setUnmodeledWrenchStateCovMat(so::Matrix6(m));
          break;
        }
        case 18:
          r.Punm = rspd(s, 6, 1e-1, 1e1);
          o.setUnmodeledWrenchInitCovMatDefault(so::Matrix6(r.Punm));
          break;
        case 19:
        {
          Mat m = rspd(s, 6, 1e-6, 1e-2);
          r.block(r.Q, r.tu(), m);
          o.setUnmodeledWrenchProcessCovMat(so::Matrix6(m));
          break;
        }
        case 20:
          if(ct >= 0)
          {
            Mat m = r.Pcon * 1.5;
            r.block(r.P, r.tc(ct), m);
            o.setContactStateCovMat(ct, so::Matrix12(m));
          }
          break;
        case 21:
          r.Pcon.block(0, 0, 6, 6) = rspd(s, 6, 1e-7, 1e-4);
          o.setContactInitCovMatDefault(so::Matrix12(r.Pcon));
          break;
        case 22:
          if(ct >= 0)
          {
            Mat m = rspd(s, 12, 1e-9, 1e-5);
            r.block(r.Q, r.tc(ct), m);
            o.setContactProcessCovMat(ct, so::Matrix12(m));
          }
          break;
        case 23:
          o.resetStateCovarianceMat();
          r.resetP();
          break;
        case 24:
          switch((s >> 9) % 4)
          {
            case 0:
              o.resetStateKinematicsCovMat();
              r.block(r.P, 0, r.Pkin);
              break;
            case 1:
              o.resetStateGyroBiasCovMat(unsigned(im));
              r.block(r.P, r.tb(im), r.Pb);
              break;
            case 2:
              o.resetStateUnmodeledWrenchCovMat();
              r.block(r.P, r.tu(), r.Punm);
              break;
            default:
              o.resetStateContactsCovMat();
              for(int i = 0; i < nc; ++i)
                if(r.con[size_t(i)].set) r.block(r.P, r.tc(i), r.Pcon);
              break;
          }
          break;
        case 25:
          switch((s >> 9) % 5)
          {
            case 0:
              o.resetProcessKinematicsCovMat();
              r.block(r.Q, 0, r.Qkin);
              break;
            case 1:
              o.resetProcessGyroBiasCovMat(unsigned(im));
              r.block(r.Q, r.tb(im), r.Qb);
              break;
            case 2:
              o.resetProcessUnmodeledWrenchCovMat();
              r.block(r.Q, r.tu(), r.Qunm);
              break;
            case 3:
              if(ct >= 0)
              {
                o.resetProcessContactCovMat(unsigned(ct));
                r.block(r.Q, r.tc(ct), r.Qcon);
              }
              break;
            default:
              o.resetProcessCovarianceMat();
              r.block(r.Q, 0, r.Qkin);
              for(int i = 0; i < ni; ++i) r.block(r.Q, r.tb(i), r.Qb);
              r.block(r.Q, r.tu(), r.Qunm);
              for(int i = 0; i < nc; ++i)
                if(r.con[size_t(i)].set) r.block(r.Q, r.tc(i), r.Qcon);
              break;
          }
          break;
        case 26:
          r.P = rspd(s, r.nt(), 1e-5, 1e-3);
          o.setStateCovarianceMat(r.P);
          break;
        case 27:
          r.Q = rspd(s, r.nt(), 1e-9, 1e-6);
          o.setProcessNoiseCovarianceMat(r.Q);
          break;
        case 28:
          r.dx = Vec::Constant(r.nt(), (s >> 4) & 1 ? 1e-6 : 3e-6);
          o.setFiniteDifferenceStep(r.dx);
          break;
        case 29: o.useFiniteDifferencesJacobians(b); break;
        case 30: // what a setting means when it is not said
          switch((s >> 9) % 4)
          {
            case 0:
              o.setWithUnmodeledWrench();
              r.unm = true;
              break;
            case 1:
              o.setWithGyroBias();
              r.bias = true;
              break;
            case 2:
              o.setWithAccelerationEstimation();
              r.acc = true;
              break;
            default:
              o.useFiniteDifferencesJacobians();
              c.check(std::fabs(o.getSamplingTime() - r.dt) < 1e-15, "sampling-time", "the sampling time is %g instead of %g", o.getSamplingTime(), r.dt);
              break;
          }
          break;
        case 31:
          o.resetSensorsDefaultCovMat();
          r.Ra = M3::Identity() * O::acceleroVarianceDefault;
          r.Rg = M3::Identity() * O::gyroVarianceDefault;
          r.Rw.setZero();
          r.Rw.block(0, 0, 3, 3) = M3::Identity() * O::forceSensorVarianceDefault;
          r.Rw.block(3, 3, 3, 3) = M3::Identity() * O::torqueSensorVarianceDefault;
          r.Rp.setZero();
          r.Rp.block(0, 0, 3, 3) = M3::Identity() * O::positionSensorVarianceDefault;
          r.Rp.block(3, 3, 3, 3) = M3::Identity() * O::orientationSensorVarianceDefault;
          break;
        case 32:
          if(ct >= 0)
          {
            o.resetStateContactCovMat(unsigned(ct));
            r.block(r.P, r.tc(ct), r.Pcon);
          }
          break;
        default:
          o.resetProcessContactsCovMat();
          for(int i = 0; i < nc; ++i)
            if(r.con[size_t(i)].set) r.block(r.Q, r.tc(i), r.Qcon);
          break;
      }
      {
        Disarm d;
        compareSettings("a setting");
        observe("a setting");
      }
    }
    else if(op.n == "add")
    {
      int want = int(op.arg(0) % (nc + 1)) - 1, freeSlot = -1;
      for(int i = nc - 1; i >= 0; --i)
        if(!r.con[size_t(i)].set) freeSlot = i;
      if(freeSlot < 0) continue;
      if(want >= 0 && r.con[size_t(want)].set) want = -1;
      int i = want < 0 ? freeSlot : want;
      Contact k;
      Q4 q = Ref::quat(r.x, 3);
      // the robot touches the ground about where its part is
      k.set = true;
      V3 pos = V3(r.x.head<3>()) + q * nomC[size_t(i)].p + V3(rvec(s, 3, 2e-3));
      Q4 ori = qexp(rvec(mix64(s, 1), 3, 0.02)) * q * nomC[size_t(i)].q;
      ori.normalize();
      K kk;
      kk.position = pos;
      if((s >> 3) & 1) ori.coeffs() = -ori.coeffs();
      if((s >> 4) & 1)
        kk.orientation = ori;
      else
        kk.orientation = so::Matrix3(ori.toRotationMatrix());
      auto gain = [&](u64 t, double sc) { return M3(M3((V3::Constant(1.2) + V3(rvec(mix64(s, t), 3))).asDiagonal()) * sc); };
      M3 z = M3::Zero();
      k.kp = (s >> 5) & 1 ? z : gain(5, 20000);
      k.kd = (s >> 6) & 1 ? z : gain(6, 200);
      k.kpr = (s >> 7) & 1 ? z : gain(7, 400);
      k.kdr = (s >> 8) & 1 ? z : gain(8, 10);
      bool cov = (s >> 9) & 1;
      Mat Pi = r.Pcon, Qi = r.Qcon;
      if(cov)
      {
        Pi = r.Pcon * 0.7;
        Qi = rspd(mix64(s, 9), 12, 1e-9, 1e-5);
      }
      int got;
      if(cov)
        got = LIB(o.addContact(kk, so::Matrix12(Pi), so::Matrix12(Qi), want, k.kp, k.kd, k.kpr, k.kdr));
      else
        got = LIB(o.addContact(kk, want, k.kp, k.kd, k.kpr, k.kdr));
      c.check(got == i, "contact-number", "the contact added has number %d instead of %d", got, i);
      if(k.kp.isZero()) k.kp = M3::Identity() * O::linearStiffnessDefault;
      if(k.kd.isZero()) k.kd = M3::Identity() * O::linearDampingDefault;
      if(k.kpr.isZero()) k.kpr = M3::Identity() * O::angularStiffnessDefault;
      if(k.kdr.isZero()) k.kdr = M3::Identity() * O::angularDampingDefault;
      r.con[size_t(i)] = k;
      r.x.segment<3>(r.xc(i)) = pos;
      r.x.segment<4>(r.xc(i) + 3) = ori.coeffs();
      r.x.segment<6>(r.xc(i) + 7).setZero();
      r.block(r.P, r.tc(i), Pi);
      r.block(r.Q, r.tc(i), Qi);
      observe("a contact added");
      compareSettings("a contact added");
      query(4);
      accStale = true;
      c.fault("contact made");
    }
    else if(op.n == "remove")
    {
      int i = -1;
      for(int j = 0, k = int(s % u64(nc)); j < nc; ++j)
        if(r.con[size_t((j + k) % nc)].set) i = (j + k) % nc;
      if(i < 0) continue;
      if(op.arg(0) % 5 == 0)
      {
        LIB((o.clearContacts(), 0));
        for(auto & k : r.con) k.set = k.sensor = false;
      }
      else
      {
        LIB((o.removeContact(i), 0));
        r.con[size_t(i)].set = r.con[size_t(i)].sensor = false;
      }
      observe("a contact removed");
      compareSettings("a contact removed");
      query(4);
      accStale = true;
      c.fault("contact lost");
    }
    else if(op.n == "iter")
    {
      if(r.kEst != r.kData) update(mix64(s, 21));
      i64 fault = op.arg(2), flags = op.arg(3);
      r.start();
      accStale = true;
      // inertial data
      Vec truthNoise;
      auto step3 = [&](const V3 & a, double sc) { return V3(a + V3(rvec(mix64(s, 31), 3, sc))); };
      bool nanCom = fault == 7;
      // an iteration exists from the first datum given: something always is
      bool silent = (s >> 7) % 5 == 0;
      if(silent)
      {
        bool any = false;
        for(int i = 0; i < nc; ++i) any = any || r.con[size_t(i)].set;
        if(!any) silent = false;
      }
      switch(silent ? 0 : (s >> 7) % 5 ? (s >> 7) % 5 : 4)
      {
        case 0: break;
        case 1:
        {
          V3 a = V3(0.02, 0, -0.1) + V3(rvec(s, 3, 0.02)), b = rvec(mix64(s, 32), 3, 0.1), d = rvec(mix64(s, 33), 3, 0.5);
          if(nanCom) a[1] = std::nan("");
          LIB((o.setCenterOfMass(a, b, d), 0));
          r.com = {r.kData, a};
          r.comd = {r.kData, b};
          r.comdd = {r.kData, d};
          break;
        }
        case 2:
        {
          V3 a = step3(r.com.v, 1e-3), b = step3(r.comd.v, 1e-3);
          if(!finite(a)) a.setZero();
          if(!finite(b) || b.norm() > 1) b.setZero();
          if(a.norm() > 0.3) a.setZero();
          if(nanCom) b[1] = std::nan("");
          LIB((o.setCenterOfMass(a, b), 0));
          if(r.comd.t > 0) r.comdd = {r.kData, (b - r.comd.v) / (r.dt * double(r.kData - r.comd.t))};
          r.com = {r.kData, a};
          r.comd = {r.kData, b};
          break;
        }
        default:
        {
          V3 a = step3(r.com.v, 2e-5);
          if(!finite(a)) a.setZero();
          if(nanCom) a[1] = std::nan("");
          LIB((o.setCenterOfMass(a), 0));
          if(r.com.t > 0)
          {
            double T = r.dt * double(r.kData - r.com.t);
            V3 b = (a - r.com.v) / T;
            r.comdd = {r.kData, (b - r.comd.v) / T};
            r.comd = {r.kData, b};
          }
          r.com = {r.kData, a};
          break;
        }
      }
      if(nanCom) c.fault("invalid number in the center of mass");
      u64 im = (s >> 11) % 6;
      if(im)
      {
        M3 I2 = r.It > 0 && (im & 1) ? M3(r.I) : M3(V3(4, 5, 3).asDiagonal());
        M3 e = rspd(mix64(s, 34), 3, 1e-4, 1e-2);
        I2 += e - M3(M3::Identity() * e.trace() / 3);
        I2 = (0.5 * (I2 + I2.transpose())).eval();
        if(I2.eigenvalues().real().minCoeff() < 1) I2 = M3(V3(4, 5, 3).asDiagonal());
        M3 d = 0.1 * rspd(mix64(s, 35), 3, 1e-2, 1);
        auto v6 = [](const M3 & m) {
          V6 v;
          v << m(0, 0), m(1, 1), m(2, 2), m(0, 1), m(0, 2), m(1, 2);
          return v;
        };
        if(im == 1) LIB((o.setInertiaMatrix(I2), 0));
        if(im == 2) LIB((o.setInertiaMatrix(I2, d), 0));
        if(im == 3) LIB((o.setInertiaMatrix(v6(I2)), 0));
        if(im == 4) LIB((o.setInertiaMatrix(v6(I2), v6(d)), 0));
        if(im <= 4)
        {
          if(im % 2 == 0)
            r.Id = d;
          else if(r.It > 0)
            r.Id = (I2 - r.I) / (r.dt * double(r.kData - r.It));
          r.I = I2;
          r.It = r.kData;
        }
      }
      else if(r.It == 0)
      {
        r.I = M3(V3(4, 5, 3).asDiagonal());
        r.Id.setZero();
        r.It = r.kData;
        LIB((o.setInertiaMatrix(r.I, M3(M3::Zero())), 0));
      }
      switch((s >> 15) % 4)
      {
        case 0:
        {
          V3 a = rvec(mix64(s, 36), 3, 0.3), b = rvec(mix64(s, 37), 3, 0.5);
          LIB((o.setAngularMomentum(a, b), 0));
          r.sig = {r.kData, a};
          r.sigd = {r.kData, b};
          break;
        }
        case 1:
        {
          V3 a = r.sig.v + V3(rvec(mix64(s, 36), 3, 1e-3));
          LIB((o.setAngularMomentum(a), 0));
          if(r.sig.t > 0) r.sigd = {r.kData, (a - r.sig.v) / (r.dt * double(r.kData - r.sig.t))};
          r.sig = {r.kData, a};
          break;
        }
        default: break;
      }
      // which sensors speak, and what they say: the predicted measurement, noise and faults
      std::vector<int> mode(static_cast<size_t>(nc), 0);
      for(int i = 0; i < nc; ++i) mode[size_t(i)] = r.con[size_t(i)].set ? int((mix64(s, 40) >> (2 * i)) % 4) % 3 : 0;
      std::vector<int> imus;
      for(int i = 0; i < ni; ++i)
        if((mix64(s, 41) >> (3 * i)) % 4) imus.push_back(i);
      if(!imus.empty() && ((s >> 19) & 1)) std::swap(imus.front(), imus.back());
      bool pose = (s >> 20) % 3 == 0;
      int nanLocal = fault == 4 ? int(mix64(s, 42) % 8) : -1;
      if(fault == 4) c.fault("invalid number in the kinematics of a part");
      auto noisy = [&](V6 v, u64 t, double sc) {
        v += V6(rvec(mix64(s, t), 6, sc));
        if(fault == 5) v *= 20;
        if(fault == 6) v.setZero();
        return v;
      };
      V3 la, aa;
      r.accelerations(r.x, la, aa);
      M3 R = Ref::quat(r.x, 3).toRotationMatrix();
      auto doContacts = [&] {
        for(int i = 0; i < nc; ++i)
          if(r.con[size_t(i)].set)
          {
            V6 y = noisy(V6(r.x.segment<6>(r.xc(i) + 7)), 200 + u64(i), 1.);
            if(!finite(y)) y.setZero();
            if(fault == 3 && mode[size_t(i)])
            {
              y[i64(s % 6)] = (s & 8) ? INFINITY : std::nan("");
              c.fault("invalid number in a wrench");
            }
            if((flags & 2) && ((s >> 23) & 1)) giveContact(i, mix64(s, 55), (mode[size_t(i)] + 1) % 3, &y, false); // corrected afterwards
            giveContact(i, s, mode[size_t(i)], &y, nanLocal == i);
          }
      };
      auto doImus = [&] {
        for(int i : imus)
        {
          Imu & u = r.imu[size_t(i)];
          bool autoNum = false;
          int first = 0;
          while(first < ni && r.imu[size_t(first)].time == r.kData) ++first;
          if(first == i && ((s >> 25) & 1)) autoNum = true;
          Given g = around(mix64(s, 60 + u64(i)), nomI[size_t(i)], u.time ? &u.l : nullptr);
          if(nanLocal == nc + i) g.l.p[0] = std::nan("");
          follow(u.l, g, u.time == 0, r.dt * double(r.kData - u.time), true);
          Q4 q = Ref::quat(r.x, 3);
          V3 arm = q * u.l.p, w = r.x.segment<3>(10);
          V3 ga = la + aa.cross(arm) + w.cross(w.cross(arm)) + 2 * w.cross(q * u.l.v) + q * u.l.a;
          M3 Rt = (q * u.l.q).toRotationMatrix().transpose();
          V6 y;
          y << Rt * (ga + grav()), Rt * (w + q * u.l.w);
          if(!finite(y)) y.setZero();
          y = noisy(y, 300 + u64(i), 0.05);
          if(fault == 1 || fault == 2)
          {
            y[i64(s % 6)] = fault == 1 ? std::nan("") : INFINITY;
            c.fault("invalid number in an IMU");
          }
          u.y = y;
          u.time = r.kData;
          K kk = g.kine();
          int got;
          V3 ya = y.head<3>(), yg = y.tail<3>();
          if((mix64(s, 61) >> i) & 1)
          {
            u.Ra = rspd(mix64(s, 62), 3, 1e-3, 1e-1);
            u.Rg = rspd(mix64(s, 63), 3, 1e-6, 1e-3);
            got = LIB(o.setIMU(ya, yg, u.Ra, u.Rg, kk, autoNum ? -1 : i));
          }
          else
          {
            u.Ra = r.Ra;
            u.Rg = r.Rg;
            got = LIB(o.setIMU(ya, yg, kk, autoNum ? -1 : i));
          }
          c.check(got == i, "imu-number", "the IMU has number %d instead of %d", got, i);
        }
      };
      auto doPose = [&] {
        if(!pose) return;
        r.pose = true;
        r.poseP = V3(r.x.head<3>()) + V3(rvec(mix64(s, 70), 3, 1e-3));
        r.poseQ = qexp(rvec(mix64(s, 71), 3, 1e-3)) * Ref::quat(r.x, 3);
        r.poseQ.normalize();
        if(fault == 5) r.poseP *= 3;
        if(fault == 8)
        {
          r.poseP[2] = std::nan("");
          c.fault("invalid number in the absolute pose");
        }
        if((s >> 28) & 1) r.poseQ.coeffs() = -r.poseQ.coeffs();
        K kk;
        kk.position = r.poseP;
        kk.orientation = r.poseQ;
        if((s >> 29) & 1)
        {
          r.poseR = rspd(mix64(s, 72), 6, 1e-6, 1e-3);
          LIB((o.setAbsolutePoseSensor(kk, so::Matrix6(r.poseR)), 0));
        }
        else
        {
          r.poseR = r.Rp;
          LIB((o.setAbsolutePoseSensor(kk), 0));
        }
      };
      if(fault == 5) c.fault("outlier");
      if(fault == 6) c.fault("dead sensors");
      switch((s >> 31) % 3)
      {
        case 0:
          doContacts();
          doImus();
          doPose();
          break;
        case 1:
          doPose();
          doImus();
          doContacts();
          break;
        default:
          doImus();
          doContacts();
          doPose();
          break;
      }
      if(!r.measSize()) c.probe("iteration without sensors");
      if(!(flags & 1)) update(s);
    }
    else if(op.n == "update")
      update(s);
    else if(op.n == "forget")
    {
      LIB((o.resetInputs(), 0));
      for(auto & u : r.imu) u.time = 0;
      for(auto & k : r.con) k.updated = k.sensor = false, k.fresh = true;
      r.pose = false;
      query(6);
      observe("inputs forgotten");
      // the kinematics of the contacts remain known until they are told again
      for(auto & k : r.con) k.fresh = true;
      accStale = true;
      if(r.kEst != r.kData)
        for(int i = 0; i < nc; ++i)
          if(r.con[size_t(i)].set) giveContact(i, s, 0, nullptr, false);
      c.fault("inputs forgotten");
    }
    else if(op.n == "noise")
    { // disturbances of the model
      bool on = s & 1;
      if(op.arg(0) % 2 == 0)
      {
        r.pnoise = on;
        r.pn.v = rvec(s, 13, 1e-3);
        r.pn.v.segment<4>(3).setZero();
        if(on)
          LIB((o.setProcessNoise(&r.pn), 0));
        else
          LIB((o.resetProcessNoise(), 0));
        c.check(LIB(o.getProcessNoise()) == (on ? &r.pn : nullptr), "noise", "the process noise is not the one set");
      }
      else
      {
        r.mnoise = on;
        r.mn.v = rvec(s, 40, 1e-2);
        if(on)
          LIB((o.setMeasurementNoise(&r.mn), 0));
        else
          LIB((o.resetMeasurementNoise(), 0));
        c.check(LIB(o.getMeasurementNoise()) == (on ? &r.mn : nullptr), "noise", "the measurement noise is not the one set");
      }
      observe("a noise");
      compareSettings("a noise");
    }
    else if(op.n == "query")
      query(u64(op.arg(0)) + 9 * s);
    lastOp = mix64(u64(op.n[0]) * 256 + u64(op.n[1]), u64(op.arg(0)));
    if(c.verbose) c.log("%s %lld k=%lld/%lld", op.n.c_str(), (long long)op.arg(0), (long long)r.kEst, (long long)r.kData);
  }
  if(r.kEst != r.kData) update(5);
  c.nontrivial = steps > 2;
}

Case gen(Rng & r, bool th)
{
  Case c;
  c.cfg["contacts"] = r.range(0, 3);
  c.cfg["imus"] = r.range(0, 2);
  c.cfg["dt"] = r.range(0, 4);
  c.cfg["place"] = r.range(0, 1000);
  c.add("init", {r.chance(0.9) ? 0 : 1, r.seed()});
  if(r.chance(0.8)) c.add("state", {0, r.seed()});
  i64 n = r.range(4, th ? 60 : 22);
  double flt = r.uni(0, 0.3), cf = r.uni(0.2, 2);
  for(i64 i = r.range(0, 3); i > 0; --i) c.add("add", {r.range(0, 4), r.seed()});
  for(i64 i = 0; i < n; ++i)
  {
    i64 s = r.seed();
    switch(r.pick({6, 0.8, 0.6, cf, 0.5, 1, 0.25, 0.3, 0.15}))
    {
      case 0: c.add("iter", {0, s, r.chance(flt) ? r.range(1, 8) : 0, r.chance(0.3) ? r.range(0, 3) : 0}); break;
      case 1: c.add("add", {r.range(0, 4), s}); break;
      case 2: c.add("remove", {r.range(0, 9), s}); break;
      case 3: c.add("config", {r.range(0, 33), s}); break;
      case 4: c.add("state", {r.range(0, 4), s}); break;
      case 5: c.add("query", {r.range(0, 8), s}); break;
      case 6: c.add("forget", {0, s}); break;
      case 7: c.add("update", {0, s}); break;
      default: c.add("noise", {r.range(0, 1), s}); break;
    }
  }
  return c;
}
Reg rC16({"C16", "kinetics", 6000, 60000,
          "random histories of contacts made, updated and lost, sensors that speak or stay silent, settings, states given, forgotten and late inputs, with invalid, infinite, "
          "dead and outlying data; every estimate compared with one predict/correct step of a separate model from the last estimate; "
          "non-trivial: more than two estimated iterations; distinct: different op list",
          "kinetics observer, extended Kalman filter, kinematics", "the robot and its sensors (simulated world); the reference model is the harness's own", gen, exec});
} // namespace
} // namespace sim
