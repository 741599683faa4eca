// C19: a system model gives what its equations give for the state, input and configuration of the call, whatever was
// evaluated, reconfigured, refused or interrupted before on the same object.
#include "core.hpp"

#include <memory>

#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#undef IMU_DYNAMICAL_SYSTEM_HPP // both headers use this guard
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/imu-fixed-contact-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/stable-imu-fixed-contact-dynamical-system.hpp>

namespace sim
{
namespace so = stateObservation;
namespace fx = stateObservation::flexibilityEstimation;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q;
const V3 G(0, 0, 9.8);

Q qexp(const V3 & v)
{
  double n = v.norm();
  if(n < 1e-14) return Q::Identity();
  V3 a = v / n * std::sin(n / 2);
  return Q(std::cos(n / 2), a.x(), a.y(), a.z());
}
V3 qlog(Q q)
{
  q.normalize();
  if(q.w() < 0) q.coeffs() = -q.coeffs();
  double s = q.vec().norm();
  if(s < 1e-14) return 2 * q.vec();
  return q.vec() / s * 2 * std::atan2(s, q.w());
}
M3 rexp(const V3 & v)
{
  return qexp(v).toRotationMatrix();
}
V3 rlog(const M3 & R)
{
  return qlog(Q(R));
}
M3 sk(const V3 & v)
{
  M3 m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}

struct Shift : so::NoiseBase // stands for noise: a known vector is added, or the call fails
{
  u64 s = 0;
  bool boom = false;
  so::Vector getNoisy(const so::Vector & v) override
  {
    Disarm d;
    if(boom) throw std::runtime_error("noise");
    return v + rvec(s, v.size());
  }
};

// the angle part of a state compared as a rotation
struct Sys
{
  std::unique_ptr<so::DynamicalSystemFunctorBase> f;
  double dt = 0.005;
  Shift pn, mn;
  bool hpn = false, hmn = false;
  virtual ~Sys() {}
  virtual void make() = 0;
  virtual void config(i64 which, u64 s) = 0;
  virtual Vec state(u64 s) = 0; // a plausible state
  virtual Vec input(u64 s) = 0;
  virtual Vec next(const Vec & x, const Vec & u) = 0;
  virtual Vec meas(const Vec & x, const Vec & u) = 0;
  virtual int oriAt() const
  {
    return -1;
  }
  virtual bool inputInState() const
  {
    return true;
  }
  virtual bool inputInMeas() const
  {
    return false;
  }
  virtual void extra(Ctx &, i64, u64) {}
  virtual void settings(Ctx &) {} // what the model says of its settings
  void noise(i64 which, u64 s)
  {
    Arm g;
    auto * b = f.get();
    (void)b;
    setNoise(which, s);
  }
  virtual void setNoise(i64, u64) {}
};

template<typename F>
void noiseOps(Sys & y, F & f, i64 which, u64 s)
{
  switch(which & 3)
  {
    case 0:
      y.pn.s = s;
      f.setProcessNoise(&y.pn);
      y.hpn = true;
      break;
    case 1:
      f.resetProcessNoise();
      y.hpn = false;
      break;
    case 2:
      y.mn.s = s;
      f.setMeasurementNoise(&y.mn);
      y.hmn = true;
      break;
    default:
      f.resetMeasurementNoise();
      y.hmn = false;
      break;
  }
}

template<typename F, bool MAG>
struct ImuSys : Sys
{
  F * p = nullptr;
  void make() override
  {
    Arm g;
    f.reset(p = new F());
    p->setSamplingPeriod(dt);
  }
  void config(i64, u64 s) override
  {
    dt = 1e-3 * double(1 + s % 50);
    LIB((p->setSamplingPeriod(dt), 0));
  }
  void setNoise(i64 w, u64 s) override
  {
    noiseOps(*this, *p, w, s);
  }
  Vec state(u64 s) override
  {
    Vec x = rvec(s, 18, 2);
    x.segment<3>(3) = rvec(mix64(s, 9), 3, 1.4);
    return x;
  }
  Vec input(u64 s) override
  {
    return rvec(s, 6, 2);
  }
  int oriAt() const override
  {
    return 3;
  }
  bool inputInState() const override
  {
    return !MAG;
  }
  Vec next(const Vec & x, const Vec & u) override
  {
    V3 p0 = x.segment<3>(0), o = x.segment<3>(3), v = x.segment<3>(6), w = x.segment<3>(9), a = x.segment<3>(12), t = x.segment<3>(15);
    Vec n(18);
    n << p0 + v * dt + a * dt * dt / 2, qlog(qexp(w * dt + t * dt * dt / 2) * qexp(o)), v + a * dt, w + t * dt, V3::Zero(), V3::Zero();
    if(!MAG) n.tail<6>() = u;
    return n;
  }
  Vec meas(const Vec & x, const Vec &) override
  {
    M3 Rt = rexp(x.segment<3>(3)).transpose();
    Vec y(MAG ? 9 : 6);
    y.head<3>() = Rt * (x.segment<3>(12) + G);
    y.segment<3>(3) = Rt * x.segment<3>(9);
    if(MAG) y.tail(3) = Rt * V3(0, 28, -33.7);
    return y;
  }
};

struct MultSys : Sys
{
  so::IMUMltpctiveDynamicalSystem * p = nullptr;
  void make() override
  {
    Arm g;
    f.reset(p = new so::IMUMltpctiveDynamicalSystem());
    p->setSamplingPeriod(dt);
  }
  void config(i64, u64 s) override
  {
    dt = 1e-3 * double(1 + s % 50);
    LIB((p->setSamplingPeriod(dt), 0));
  }
  void setNoise(i64 w, u64 s) override
  {
    noiseOps(*this, *p, w, s);
  }
  Vec state(u64 s) override
  {
    Vec x = rvec(s, 19, 2);
    x.segment<4>(3) = rquat(mix64(s, 9)).coeffs();
    return x;
  }
  Vec input(u64 s) override
  {
    return rvec(s, 6, 2);
  }
  Vec next(const Vec & x, const Vec & u) override
  {
    V3 p0 = x.segment<3>(0), v = x.segment<3>(7), w = x.segment<3>(10), a = x.segment<3>(13), t = x.segment<3>(16);
    Q q(Eigen::Vector4d(x.segment<4>(3)));
    Vec n(19);
    n << p0 + v * dt + a * dt * dt / 2, (qexp(w * dt + t * dt * dt / 2) * q).coeffs(), v + a * dt, w + t * dt, u;
    return n;
  }
  Vec meas(const Vec & x, const Vec &) override
  {
    M3 Rt = Q(Eigen::Vector4d(x.segment<4>(3))).toRotationMatrix().transpose();
    Vec y(6);
    y << Rt * (x.segment<3>(13) + G), Rt * x.segment<3>(10);
    return y;
  }
  Vec plus(const Vec & x, const Vec & d)
  {
    Vec n(19);
    n << x.head<3>() + d.head<3>(), (qexp(d.segment<3>(3)) * Q(Eigen::Vector4d(x.segment<4>(3)))).coeffs(), x.tail<12>() + d.tail<12>();
    return n;
  }
  Vec minus(const Vec & a, const Vec & b)
  {
    Vec d(18);
    d << a.head<3>() - b.head<3>(), qlog(Q(Eigen::Vector4d(a.segment<4>(3))) * Q(Eigen::Vector4d(b.segment<4>(3))).conjugate()), a.tail<12>() - b.tail<12>();
    return d;
  }
  void extra(Ctx & c, i64 which, u64 s) override
  {
    Vec x = state(s), u = input(s + 1);
    const double h = 1e-5;
    if(which % 3 == 0)
    {
      Mat A = LIB(Mat(p->getAMatrix(x)));
      Mat W(18, 18);
      for(int i = 0; i < 18; ++i)
      {
        Vec d = Vec::Zero(18);
        d[i] = h;
        W.col(i) = minus(next(plus(x, d), u), next(plus(x, -d), u)) / (2 * h);
      }
      // the accelerations of the next state are the inputs
      c.close(A, W, 1e-6, "state-jacobian", "the state Jacobian of the multiplicative attitude system");
    }
    else if(which % 3 == 1)
    {
      Mat C = LIB(Mat(p->getCMatrix(x)));
      Mat W(6, 18);
      for(int i = 0; i < 18; ++i)
      {
        Vec d = Vec::Zero(18);
        d[i] = h;
        W.col(i) = (meas(plus(x, d), u) - meas(plus(x, -d), u)) / (2 * h);
      }
      c.close(C, W, 1e-5, "measurement-jacobian", "the measurement Jacobian of the multiplicative attitude system");
    }
    else
    {
      Vec d = rvec(mix64(s, 3), 18, 1), z, e;
      so::Vector sum, diff;
      {
        Arm g;
        p->stateSum(x, d, sum);
        p->stateDifference(sum, x, diff);
      }
      Vec w = plus(x, d);
      if(w.segment<4>(3).dot(sum.segment<4>(3)) < 0) w.segment<4>(3) = -w.segment<4>(3);
      c.close(sum, w, 1e-9, "state-sum", "the sum of a state and a tangent vector");
      c.close(diff, d, 1e-7, "state-difference", "the difference of two states");
    }
  }
};

template<typename F, bool STABLE>
struct FixedSys : Sys
{
  F * p = nullptr;
  std::vector<V3> contacts;
  void make() override
  {
    Arm g;
    f.reset(p = new F(dt));
  }
  void config(i64 which, u64 s) override
  {
    Arm g;
    if(which % 3 == 0)
    {
      dt = 1e-3 * double(1 + s % 20);
      p->setSamplingPeriod(dt);
    }
    else if(which % 3 == 1)
    {
      unsigned n = unsigned(s % 5);
      contacts.resize(n, V3::Zero());
      p->setContactsNumber(n);
    }
    else if(contacts.size())
    {
      unsigned i = unsigned(s % contacts.size());
      contacts[i] = rvec(s, 3, 0.5);
      p->setContactPosition(i, contacts[i]);
    }
  }
  void setNoise(i64 w, u64 s) override
  {
    noiseOps(*this, *p, w, s);
  }
  Vec state(u64 s) override
  {
    Vec x = rvec(s, 18, 1);
    x.segment<3>(3) = rvec(mix64(s, 9), 3, 1.2);
    return x;
  }
  Vec input(u64 s) override
  {
    Vec u = rvec(s, 15, 1);
    // the memoised rotation is shared between the flexibility and the control: equal values must not confuse it
    if(s % 4 == 0) u.segment<3>(3) = V3::Zero();
    return u;
  }
  int oriAt() const override
  {
    return 3;
  }
  bool inputInState() const override
  {
    return false;
  }
  bool inputInMeas() const override
  {
    return true;
  }
  Vec next(const Vec & x, const Vec &) override
  {
    V3 p0 = x.segment<3>(0), o = x.segment<3>(3), v = x.segment<3>(6), w = x.segment<3>(9), a = x.segment<3>(12), t = x.segment<3>(15);
    if(STABLE)
    {
      a = -25. * p0 - v; // 2 * 0.1 * 5
      t = -25. * o - w;
    }
    Vec n(18);
    n << p0 + v * dt + a * dt * dt / 2, qlog(qexp(w * dt + t * dt * dt / 2) * qexp(o)), v + a * dt, w + t * dt, a, t;
    return n;
  }
  Vec meas(const Vec & x, const Vec & u) override
  {
    V3 pos = x.segment<3>(0), o = x.segment<3>(3), w = x.segment<3>(9), a = x.segment<3>(12), t = x.segment<3>(15);
    V3 pc = u.segment<3>(0), oc = u.segment<3>(3), vc = u.segment<3>(6), wc = u.segment<3>(9), ac = u.segment<3>(12);
    M3 R = rexp(o), S = R * rexp(oc);
    Vec y(6 + 3 * i64(contacts.size()));
    V3 rp = R * pc;
    y.segment<3>(0) = S.transpose() * (t.cross(rp) + w.cross(w.cross(rp)) + 2 * w.cross(R * vc) + a + R * ac + G);
    y.segment<3>(3) = S.transpose() * (w + R * wc);
    for(size_t i = 0; i < contacts.size(); ++i) y.segment<3>(6 + 3 * i64(i)) = R * contacts[i] + pos - contacts[i];
    return y;
  }
};

struct PendSys : Sys
{
  so::BidimElasticInvPendulum * p = nullptr;
  double m = 60, h = 0.8, k = 30000;
  void make() override
  {
    Arm g;
    f.reset(p = new so::BidimElasticInvPendulum());
    p->setSamplingPeriod(dt);
    p->setMass(m);
    p->setHeight(h);
    p->setElasticity(k);
  }
  void config(i64 which, u64 s) override
  {
    Arm g;
    switch(which & 3)
    {
      case 0: p->setSamplingPeriod(dt = 1e-3 * double(1 + s % 20)); break;
      case 1: p->setMass(m = double(1 + s % 90)); break;
      case 2: p->setHeight(h = 0.2 + double(s % 10) / 10); break;
      default: p->setElasticity(k = double(1 + s % 50000)); break;
    }
  }
  void setNoise(i64 w, u64 s) override
  {
    if((w & 3) < 2) noiseOps(*this, *p, w, s);
  }
  Vec state(u64 s) override
  {
    return rvec(s, 4, 0.5);
  }
  Vec input(u64 s) override
  {
    return rvec(s, 1, 2);
  }
  Vec next(const Vec & x, const Vec & u) override
  {
    double pp = x[0], th = x[1], pd = x[2], td = x[3];
    double tdd = (-k * th - m * 9.8 * (std::cos(th) * pp - std::sin(th) * h) + m * (h * u[0] - 2 * td * h * pd)) / (m * (pp * pp + h * h));
    Vec n(4);
    n << pp + dt * pd, th + dt * td, pd + dt * u[0], td + dt * tdd;
    return n;
  }
  Vec meas(const Vec &, const Vec &) override
  {
    return Vec(0);
  }
};

struct ElasticSys : Sys
{
  typedef fx::IMUElasticLocalFrameDynamicalSystem E;
  E * p = nullptr;
  unsigned nc = 0, model = 1;
  double m = 56.8;
  bool fm = false, bias = false, absp = false, unm = false;
  M3 Kfe, Kte, Kfv, Ktv, Rfe, Rte, Rfv, Rtv;
  V3 pe;
  Vec dx;
  void make() override
  {
    Kfe = Rfe = 40000 * M3::Identity();
    Kte = Rte = Kfv = Rfv = 600 * M3::Identity();
    Ktv = Rtv = 60 * M3::Identity();
    pe.setZero();
    dx = Vec::Constant(35, 1e-6);
    Arm g;
    f.reset(p = new E(dt));
    p->setContactModel(model);
    p->setFDstep(dx);
  }
  static M3 gain(u64 s, double sc)
  {
    return M3((V3::Constant(1.2) + V3(rvec(s, 3))).asDiagonal()) * sc;
  }
  void config(i64 which, u64 s) override
  {
    Arm g;
    switch(((which % 19) + 19) % 19)
    {
      case 0: p->setSamplingPeriod(dt = 1e-3 * double(1 + s % 10)); break;
      case 1:
      case 2:
      case 3: p->setContactsNumber(nc = unsigned(s % 3)); break;
      case 4: p->setContactModel(model = 1 + unsigned(s % 2)); break;
      case 5: p->setRobotMass(m = 20 + double(s % 60)); break;
      case 6: p->setWithForceMeasurements(fm = s & 1); break;
      case 7: p->setWithComBias(bias = s & 1); break;
      case 8: p->setWithAbsolutePosition(absp = s & 1); break;
      case 9: p->setWithUnmodeledForces(unm = s & 1); break;
      case 10: p->setKfe(Kfe = gain(s, 40000)); break;
      case 11: p->setKte(Kte = gain(s, 600)); break;
      case 12: p->setKfv(Kfv = gain(s, 600)); break;
      case 13: p->setKtv(Ktv = gain(s, 60)); break;
      case 14: p->setKfeRopes(Rfe = gain(s, 40000)); break;
      case 15: p->setKteRopes(Rte = gain(s, 600)); break;
      case 16: p->setKfvRopes(Rfv = gain(s, 600)); break;
      case 17: p->setKtvRopes(Rtv = gain(s, 60)); break;
      default: p->setPe(pe = V3(0, 0, 1 + double(s % 3))); break;
    }
  }
  void settings(Ctx & c) override
  {
    c.close(LIB(Mat(p->getKfe())), Mat(Kfe), 1e-12, "settings", "the linear stiffness");
    c.close(LIB(Mat(p->getKfv())), Mat(Kfv), 1e-12, "settings", "the linear damping");
    c.close(LIB(Mat(p->getKte())), Mat(Kte), 1e-12, "settings", "the angular stiffness");
    c.close(LIB(Mat(p->getKtv())), Mat(Ktv), 1e-12, "settings", "the angular damping");
    Arm g;
    bool ok = p->getContactsNumber() == nc && p->getWithForceMeasurements() == fm && p->getWithComBias() == bias && p->getWithAbsolutePosition() == absp
              && std::fabs(p->getRobotMass() - m) < 1e-9;
    Disarm d;
    c.check(ok, "settings", "the model does not have the settings it was given");
  }
  void setNoise(i64 w, u64 s) override
  {
    noiseOps(*this, *p, w, s);
  }
  Vec state(u64 s) override
  {
    Vec x = rvec(s, 35, 0.05);
    x.segment<3>(3) = rvec(mix64(s, 9), 3, 0.3);
    x.segment<6>(6) = rvec(mix64(s, 10), 6, 0.5);
    x.segment<12>(12) = rvec(mix64(s, 11), 12, 200);
    x.segment<6>(24) = rvec(mix64(s, 12), 6, 20);
    x.segment<3>(32) = rvec(mix64(s, 13), 3, 0.5);
    return x;
  }
  Vec input(u64 s) override
  {
    Vec u = rvec(s, 48 + 12 * i64(nc), 0.3);
    V3 c = V3(0, 0, 0.8) + V3(rvec(mix64(s, 2), 3, 0.1));
    u.head<3>() = c;
    // inertia about the frame: the body's own plus the mass at its centre
    M3 I = M3(V3(5, 6, 3).asDiagonal()) - m * sk(c) * sk(c);
    I += 20 * M3::Identity();
    u.segment<6>(9) << I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2);
    if(s % 3 == 0) u.segment<3>(30).setZero();
    for(unsigned i = 0; i < nc; ++i)
    {
      if((s >> 3) % 3 == 0) u.segment<3>(48 + 12 * i + 3).setZero();
      if((s >> 5) % 4 == 0) u.segment<3>(48 + 12 * i + 3) = rvec(mix64(s, 40), 3, 0.3); // the same for all contacts
      u.segment<3>(48 + 12 * i) = V3(0.1, i ? -0.1 : 0.1, 0) + V3(rvec(mix64(s, 41 + i), 3, 0.05));
    }
    return u;
  }
  int oriAt() const override
  {
    return 3;
  }
  bool inputInMeas() const override
  {
    return true;
  }
  static M3 tensor(const Vec & v)
  {
    M3 I;
    I << v[0], v[3], v[4], v[3], v[1], v[5], v[4], v[5], v[2];
    return I;
  }
  V3 com(const Vec & x, const Vec & u) const
  {
    V3 c = u.head<3>();
    if(bias) c.head<2>() -= x.segment<2>(30);
    return c;
  }
  void wrench(const Vec & x, const Vec & u, V3 & F, V3 & T) const
  {
    V3 pp = x.segment<3>(0);
    M3 R = rexp(x.segment<3>(3));
    V3 add = R * u.segment<3>(42);
    F = add + x.segment<3>(24);
    T = R * u.segment<3>(45) + pp.cross(add) + x.segment<3>(27);
    if(model == 1)
      for(unsigned i = 0; i < nc; ++i)
      {
        M3 C = R * rexp(u.segment<3>(48 + 12 * i + 3));
        V3 fi = C * x.segment<3>(12 + 6 * i);
        F += fi;
        T += C * x.segment<3>(15 + 6 * i) + V3(R * u.segment<3>(48 + 12 * i) + pp).cross(fi);
      }
    else
    {
      F += x.segment<3>(12);
      T += x.segment<3>(15);
    }
  }
  // Newton and Euler about the world origin, solved as one 6x6 system
  void acc(const Vec & x, const Vec & u, V3 & la, V3 & aa) const
  {
    V3 pp = x.segment<3>(0), w = x.segment<3>(9), c = com(x, u), F, T;
    M3 R = rexp(x.segment<3>(3));
    wrench(x, u, F, T);
    V3 Rc = R * c, Rv = R * u.segment<3>(3), Ra = R * u.segment<3>(6);
    M3 I = R * tensor(u.segment<6>(9)) * R.transpose(), dI = R * tensor(u.segment<6>(18)) * R.transpose();
    V3 L = R * u.segment<3>(15), dL = R * u.segment<3>(24);
    V3 k = w.cross(w.cross(Rc)) + 2 * w.cross(Rv) + Ra; // acceleration of the CoM that is neither linear nor angular
    Eigen::Matrix<double, 6, 6> A;
    Eigen::Matrix<double, 6, 1> b;
    A.block<3, 3>(0, 0) = m * M3::Identity();
    A.block<3, 3>(0, 3) = -m * sk(Rc);
    b.head<3>() = F - m * G - m * k;
    A.block<3, 3>(3, 0) = m * sk(pp) + m * sk(Rc);
    A.block<3, 3>(3, 3) = I - m * sk(pp) * sk(Rc);
    b.tail<3>() = T - m * (Rc + pp).cross(G) - w.cross(I * w) - dI * w - w.cross(L) - dL - m * pp.cross(k);
    Eigen::Matrix<double, 6, 1> z = A.fullPivLu().solve(b);
    la = z.head<3>();
    aa = z.tail<3>();
  }
  void forces(const V3 & pp, const V3 & o, const V3 & v, const V3 & w, const Vec & u, Vec & F) const
  {
    M3 R = rexp(o);
    F = Vec::Zero(12);
    if(model == 1)
      for(unsigned i = 0; i < nc; ++i)
      {
        V3 pc = u.segment<3>(48 + 12 * i), vc = u.segment<3>(48 + 12 * i + 6);
        M3 C = (R * rexp(u.segment<3>(48 + 12 * i + 3))).transpose();
        F.segment<3>(6 * i) = -Kfe * (C * (R * pc + pp - pc)) - Kfv * (C * (w.cross(R * pc) + v + R * vc));
        F.segment<3>(6 * i + 3) = -Kte * (C * o) - Ktv * (C * w);
      }
    else
    {
      V3 f = -Rfv * v, t = V3(0, 0, -Rte(2, 2) * o.z()) - Rtv * w;
      for(unsigned i = 0; i < nc; ++i)
      {
        V3 pc = u.segment<3>(48 + 12 * i), r = pp + R * pc - pe;
        f += -(r.norm() - (pc - pe).norm()) * (Rfe * (r / r.norm()));
      }
      F.head<3>() = f;
      F.segment<3>(3) = t;
    }
  }
  Vec next(const Vec & x, const Vec & u) override
  {
    V3 la, aa;
    acc(x, u, la, aa);
    V3 v = x.segment<3>(6), w = x.segment<3>(9);
    V3 pn_ = x.segment<3>(0) + v * dt + la * dt * dt / 2;
    V3 on = qlog(qexp(w * dt + aa * dt * dt / 2) * qexp(x.segment<3>(3)));
    v += la * dt;
    w += aa * dt;
    Vec F, n = x;
    forces(pn_, on, v, w, u, F);
    n.head<12>() << pn_, on, v, w;
    n.segment<12>(12) = F;
    if(unm)
      n.segment<6>(24) *= 0.9999;
    else
      n.segment<6>(24).setZero();
    return n;
  }
  Vec meas(const Vec & x, const Vec & u) override
  {
    V3 la, aa;
    acc(x, u, la, aa);
    V3 w = x.segment<3>(9);
    M3 R = rexp(x.segment<3>(3)), S = R * rexp(u.segment<3>(30));
    V3 rp = R * u.segment<3>(27);
    std::vector<double> y;
    auto put = [&](const Vec & v) { y.insert(y.end(), v.data(), v.data() + v.size()); };
    put(S.transpose() * (2 * w.cross(R * u.segment<3>(33)) + la + R * u.segment<3>(39) + aa.cross(rp) + w.cross(w.cross(rp)) + G));
    put(S.transpose() * (w + R * u.segment<3>(36)));
    if(fm) put(x.segment(12, 6 * nc));
    if(absp)
    {
      M3 D = rexp(V3(0, 0, x[34]));
      put(V3(x[32], x[33], 0) + D * x.segment<3>(0));
      put(rlog(D * R));
    }
    return Eigen::Map<Vec>(y.data(), i64(y.size()));
  }
  void extra(Ctx & c, i64 which, u64 s) override
  {
    Vec x = state(s), u = input(mix64(s, 1));
    switch(((which % 6) + 6) % 6)
    {
      case 0:
      {
        if(hpn) return;
        Mat J = LIB((p->stateDynamics(x, u, 0), (s & 1) ? (void)p->measureDynamics(state(mix64(s, 77)), u, 0) : (void)0, Mat(p->stateDynamicsJacobian())));
        jac(c, J, true, x, u);
        break;
      }
      case 1:
      {
        if(hmn) return;
        Mat J = LIB((p->measureDynamics(x, u, 0), (s & 1) ? (void)p->stateDynamics(state(mix64(s, 77)), u, 0) : (void)0, Mat(p->measureDynamicsJacobian())));
        jac(c, J, false, x, u);
        break;
      }
      case 2:
      {
        Vec F, g = LIB(Vec(p->getForcesAndMoments(x, u)));
        forces(x.segment<3>(0), x.segment<3>(3), x.segment<3>(6), x.segment<3>(9), u, F);
        c.close(g, F.head(6 * nc), 1e-9, "contact-forces", "the contact forces of the elastic model");
        break;
      }
      case 3:
      {
        Vec a = LIB(Vec(p->computeAccelerations(x, u)));
        V3 la, aa;
        acc(x, u, la, aa);
        Vec w(6);
        w << la, aa;
        c.close(a, w, 1e-8, "accelerations", "the accelerations of the elastic model");
        break;
      }
      default:
      {
        V3 F, T;
        wrench(x, u, F, T);
        Vec w(6);
        w << F - m * G, T - m * V3(rexp(x.segment<3>(3)) * com(x, u) + x.segment<3>(0)).cross(G);
        bool kin = which & 1;
        Vec a = LIB(Vec(kin ? p->getMomentaDotFromKinematics(x, u) : p->getMomentaDotFromForces(x, u)));
        c.close(a, w, 1e-8, "momenta-derivative", kin ? "the derivative of the momenta from the kinematics" : "the derivative of the momenta from the forces");
        break;
      }
    }
  }
  void jac(Ctx & c, const Mat & J, bool st, const Vec & x, const Vec & u)
  {
    Vec b = st ? next(x, u) : meas(x, u);
    Mat W = Mat::Zero(b.size(), 35);
    auto tog = [&](int i) {
      if(i >= 24 && i < 30) return unm;
      if(i >= 30 && i < 32) return bias;
      if(i >= 32) return absp;
      return true;
    };
    for(int i = 0; i < 35; ++i)
    {
      if(tog(i))
      {
        Vec z = x;
        z[i] += dx[i];
        W.col(i) = ((st ? next(z, u) : meas(z, u)) - b) / dx[i];
      }
      else if(st)
        W(i, i) = 1;
    }
    c.check(J.rows() == W.rows() && J.cols() == W.cols(), "jacobian-size", "the %s Jacobian is %lldx%lld", st ? "state" : "measurement", (long long)J.rows(),
            (long long)J.cols());
    double sc = 1 + W.cwiseAbs().maxCoeff();
    double e = (J - W).cwiseAbs().maxCoeff();
    c.check(e <= 1e-6 * sc, "jacobian", "the %s Jacobian of the elastic model is off by %g (largest entry %g)", st ? "state" : "measurement", e, sc);
  }
};

Sys * make(i64 kind)
{
  switch(((kind % 7) + 7) % 7)
  {
    case 0: return new ElasticSys();
    case 1: return new ImuSys<so::IMUDynamicalSystem, false>();
    case 2: return new ImuSys<so::IMUMagnetometerDynamicalSystem, true>();
    case 3: return new MultSys();
    case 4: return new FixedSys<fx::IMUFixedContactDynamicalSystem, false>();
    case 5: return new FixedSys<fx::StableIMUFixedContactDynamicalSystem, true>();
    default: return new PendSys();
  }
}

void exec(const Case & k, Ctx & c)
{
  std::unique_ptr<Sys> y(make(k.c("kind")));
  y->make();
  Vec lastX, lastU;
  i64 evals = 0, t = 0;
  u64 c1 = 0, c2 = 0;
  int warm = 0; // Eigen's own resize leaves a dangling pointer when its allocation fails: no failure while sizes may change
  auto same = [&](const Vec & g, const Vec & w, bool st, const char * key, const char * what) {
    c.check(g.size() == w.size(), key, "%s has %lld components instead of %lld", what, (long long)g.size(), (long long)w.size());
    Vec d = w;
    int o = y->oriAt();
    if(st && o >= 0 && !y->hpn)
    {
      V3 a = g.segment<3>(o), b = w.segment<3>(o);
      double e = qlog(qexp(a) * qexp(b).conjugate()).norm();
      c.check(e < 1e-8, key, "%s: the orientation is %g rad off", what, e);
      d.segment<3>(o) = a;
    }
    c.close(g, d, 1e-9, key, what);
    c.fold(g);
  };
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    const Op & o = k.ops[i];
    u64 s = u64(o.arg(1));
    if(o.n == "config")
    {
      y->config(o.arg(0), s);
      y->settings(c);
      c2 = c1;
      c1 = u64(o.arg(0)) + 1;
      warm = 0;
      lastU.resize(0); // the inertia of an input goes with the mass
    }
    else if(o.n == "noise")
      y->noise(o.arg(0), s);
    else if(o.n == "state" || o.n == "measure")
    {
      bool st = o.n == "state";
      // fresh values, the previous ones again, or the previous ones with one part changed
      Vec x = y->state(s), u = y->input(mix64(s, 5));
      if(o.arg(2) == 1 && lastX.size() == x.size()) x = lastX;
      if(o.arg(2) == 2 && lastX.size() == x.size())
      {
        Vec z = x;
        x = lastX;
        i64 j = i64(s % u64(x.size()));
        x[j] = z[j];
        if(k.c("kind") == 3) x.segment<4>(3).normalize();
        c.probe("one component changed");
      }
      if(o.arg(2) == 3 && lastU.size() == u.size()) u = lastU;
      if(o.arg(2) == 4 && lastX.size() == x.size()) x = lastX + rvec(s, x.size(), 1e-9);
      if(o.arg(2) == 4 && k.c("kind") == 3) x.segment<4>(3).normalize();
      lastX = x;
      lastU = u;
      i64 fault = o.arg(3);
      ++t;
      if(fault == 1 && warm == 3) // allocation failure somewhere inside
      {
        alloc::failAt(1 + i64(s % 12));
        bool threw = false;
        try
        {
          Arm g;
          if(st)
            y->f->stateDynamics(x, u, t);
          else
            y->f->measureDynamics(x, u, t);
        }
        catch(std::bad_alloc &)
        {
          threw = true;
        }
        alloc::failAt(0);
        if(threw) c.fault("allocation failure");
      }
      else if(fault == 2) // refused arguments
      {
        Vec bad = (s & 1) ? Vec(Vec::Zero(x.size() + 1)) : Vec(Vec::Zero(x.size() - 1));
        bool inp = ((s >> 1) & 1) && (st ? y->inputInState() : y->inputInMeas()) && u.size() > 1;
        Vec badU = (s & 1) ? Vec(Vec::Zero(u.size() + 1)) : Vec(Vec::Zero(u.size() > 0 ? u.size() - 1 : 1));
        bool pend = ((k.c("kind") % 7) + 7) % 7 == 6;
        if(!(pend && !st))
        {
          bool refused = false;
          try
          {
            Arm g;
            if(st)
              y->f->stateDynamics(inp ? x : bad, inp ? badU : u, t);
            else
              y->f->measureDynamics(inp ? x : bad, inp ? badU : u, t);
          }
          catch(AssertFailure &)
          {
            refused = true;
          }
          c.check(refused, "size-accepted", "a %s of the wrong size is accepted", inp ? "input" : "state");
          c.fault("wrong size");
        }
      }
      else if(fault == 3) // invalid numbers once
      {
        Vec z = x, v = u;
        if(s & 2)
          z[i64(s % u64(z.size()))] = std::nan("");
        else
          v[i64(s % u64(v.size()))] = std::nan("");
        try
        {
          Arm g;
          if(st)
            y->f->stateDynamics(z, v, t);
          else
            y->f->measureDynamics(z, v, t);
        }
        catch(AssertFailure &)
        {
        }
        c.fault("invalid numbers");
      }
      else if(fault == 4 && (st ? y->hpn : y->hmn)) // the noise source fails
      {
        Shift & n = st ? y->pn : y->mn;
        n.boom = true;
        try
        {
          Arm g;
          if(st)
            y->f->stateDynamics(x, u, t);
          else
            y->f->measureDynamics(x, u, t);
        }
        catch(std::runtime_error &)
        {
          c.fault("failing noise");
        }
        n.boom = false;
        ++t;
      }
      Vec w = st ? y->next(x, u) : y->meas(x, u);
      if(st ? y->hpn : y->hmn) w += rvec(st ? y->pn.s : y->mn.s, w.size());
      ++t;
      Vec g = st ? LIB(Vec(y->f->stateDynamics(x, u, t))) : LIB(Vec(y->f->measureDynamics(x, u, t)));
      if(y->hmn && !st && k.c("kind") % 7 >= 4 && k.c("kind") % 7 < 6)
      {
        // the noise acts on the sensors' part only
        Vec z = y->meas(x, u);
        z.head(6) += rvec(y->mn.s, 6);
        w = z;
      }
      same(g, w, st, st ? "state-dynamics" : "measure-dynamics", st ? "the next state" : "the measurement");
      c.check(y->f->getStateSize() == x.size() && (k.c("kind") % 7 == 6 || y->f->getMeasurementSize() == y->meas(x, u).size()), "sizes",
              "the sizes reported by the model are wrong");
      c.state(mix64(mix64(mix64(u64(k.c("kind")), c1 * 32 + c2), u64(st) + 2 * y->hpn + 4 * y->hmn + 8 * u64(o.arg(2))), u64(o.arg(3) + 8 * warm)));
      warm |= st ? 1 : 2;
      c.simTime += y->dt;
      ++evals;
    }
    else if(o.n == "extra")
    {
      y->extra(c, o.arg(0), s);
      ++evals;
    }
    else if(o.n == "fresh")
    {
      alloc::setFill(s);
      warm = 0;
      // another object takes the memory of the old one
      y.reset();
      y.reset(make(k.c("kind")));
      y->make();
      lastX.resize(0);
      lastU.resize(0);
    }
    if(c.verbose) c.log("%s %lld", o.n.c_str(), (long long)o.arg(0));
  }
  c.nontrivial = evals > 2;
}
Case gen(Rng & r, bool th)
{
  Case c;
  c.cfg["kind"] = r.chance(0.5) ? 0 : r.range(1, 6);
  i64 n = r.range(4, th ? 120 : 40);
  double flt = r.uni(0, 0.5), cf = r.uni(0.5, 4);
  if(r.chance(0.7)) c.add("config", {1, r.seed()});
  for(i64 i = 0; i < n; ++i)
  {
    i64 s = r.seed();
    switch(r.pick({cf, 0.7, 5, 5, 3, 0.2}))
    {
      case 0: c.add("config", {r.range(0, 18), s}); break;
      case 1: c.add("noise", {r.range(0, 3), s}); break;
      case 2: c.add("state", {0, s, r.range(0, 4), r.chance(flt) ? r.range(1, 4) : 0}); break;
      case 3: c.add("measure", {0, s, r.range(0, 4), r.chance(flt) ? r.range(1, 4) : 0}); break;
      case 4: c.add("extra", {r.range(0, 5), s}); break;
      default: c.add("fresh", {0, s}); break;
    }
  }
  return c;
}
Reg rC19({"C19", "models", 150000, 1500000,
          "random histories of evaluations (state, measurement, Jacobians, forces, momenta), reconfigurations, noise changes, failing allocations and noise, "
          "refused sizes and invalid numbers on one of seven system models, each result compared with the equations of motion; non-trivial: more than two "
          "evaluations; distinct: different op list",
          "IMU, magnetometer, multiplicative, fixed-contact, stabilised, pendulum and elastic system models; accelerometer, gyrometer and magnetometer models",
          "noise sources", gen, exec});
} // namespace
} // namespace sim
