// C13: the flexibility estimators give, after every history of settings, guesses, samples and faults, what one
// predict/correct step of their model from the last estimate gives; invalid data never stay in the estimate.
#include "core.hpp"

#include <memory>

#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>

namespace sim
{
namespace so = stateObservation;
namespace fx = stateObservation::flexibilityEstimation;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

M3 rexp(const V3 & v)
{
  double n = v.norm();
  return n < 1e-15 ? M3(M3::Identity()) : Eigen::AngleAxisd(n, v / n).toRotationMatrix();
}
M3 sk(const V3 & v)
{
  M3 m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}
V3 wrap(const V3 & v)
{
  double n = v.norm();
  if(n <= 1.5 * M_PI) return v;
  return v / n * (n - 2 * M_PI * std::ceil((n - M_PI) / (2 * M_PI)));
}

struct Rig
{
  std::unique_ptr<fx::EKFFlexibilityEstimatorBase> e;
  // reference
  Vec x, last, y, truth;
  Mat P, Q, R;
  i64 k = 0;
  std::map<i64, Vec> u;
  bool hasY = false, on = true;
  double dt = 0.005;
  Vec dx;
  int warm = 0;
  bool fed = false; // the state was estimated at least once

  virtual ~Rig() {}
  virtual so::DynamicalSystemFunctorBase & f() = 0; // the reference's own model
  virtual i64 measGiven() = 0;                      // size of the measurement the user gives
  virtual Vec input(u64 s) = 0;
  virtual Vec uPred() = 0;                          // input of the prediction
  virtual Mat jacA(const Vec & xb) = 0;
  virtual Mat jacC(const Vec & xb, const Vec & yb, const Vec & uu) = 0;
  virtual void resetCov() = 0;
  virtual void post(Vec &) {}
  virtual void config(Ctx & c, i64 which, u64 s) = 0;
  virtual void compareCov(Ctx & c) = 0;
  virtual void extraQuery(Ctx &, i64, u64) {}
  virtual Vec full(const Vec & y) // measurement as the filter sees it
  {
    return y;
  }
  Vec pred()
  {
    Disarm d;
    return f().stateDynamics(x, uPred(), k);
  }

  Vec lastXb, lastYb, lastInno; // what the last step predicted, and by how much it corrected
  bool correct(const Vec & x0, const Mat & P0, u64 jitter, Vec & xn, Mat & Pn)
  {
    Vec keep = x;
    x = x0;
    Vec xb = f().stateDynamics(x, uPred(), k), uu = u.at(k + 1);
    Mat A = jacA(xb);
    Vec yb = f().measureDynamics(xb, uu, k + 1);
    Mat C = jacC(xb, yb, uu);
    x = keep;
    Mat Pb = Q + A * P0 * A.transpose();
    Mat S = R + C * Pb * C.transpose();
    Mat Ss = 0.5 * (S + S.transpose());
    bool ok = true;
    if(!jitter) noise = 1e-8 * Pb.diagonal().cwiseAbs();
    if(finite(S) && finite(xb))
    {
      if(jitter)
      {
        Mat e = rmat(jitter, S.rows(), S.cols(), 5e-16);
        Ss.array() *= 1 + (e + e.transpose()).array();
      }
      Vec s = Ss.diagonal().cwiseAbs().cwiseMax(1e-300).cwiseSqrt().cwiseInverse();
      Mat N = s.asDiagonal() * Ss * s.asDiagonal();
      auto ldlt = N.ldlt();
      if(!jitter) noise += 1e-10 / std::max(ldlt.rcond(), 1e-14) * Pb.diagonal().cwiseAbs();
      if(!ldlt.isPositive() || !(ldlt.rcond() > 1e-12) || !(xb.cwiseAbs().maxCoeff() < 1e6)) ok = false;
      Mat K = Pb * C.transpose() * (s.asDiagonal() * Mat(ldlt.solve(Mat(s.asDiagonal()))));
      xn = xb + K * (y - yb);
      if(!jitter)
      {
        lastXb = xb;
        lastYb = yb;
        lastInno = xn - xb;
      }
      Pn = (Mat::Identity(x.size(), x.size()) - K * C) * Pb;
      Pn = (0.5 * (Pn + Pn.transpose())).eval();
      if(!(Pn.cwiseAbs().maxCoeff() < 1e8)) ok = false;
    }
    else
    {
      xn = Vec::Constant(x.size(), std::nan(""));
      Pn = Mat::Constant(x.size(), x.size(), std::nan(""));
    }
    return ok;
  }
  // one reference step; false: the numbers are not comparable
  bool step(Ctx & c)
  {
    Disarm d;
    hasY = false;
    lastXb.resize(0);
    if(!on) return true;
    Vec xn;
    Mat Pn;
    bool ok = correct(x, P, 0, xn, Pn);
    // what rounding alone does to the step: the models are differentiated numerically, sensors have very different units
    spread = Vec::Zero(x.size());
    if(ok && finite(xn))
    {
      Mat D = Mat::Zero(x.size(), x.size());
      for(u64 j = 1; j <= 2; ++j)
      {
        Vec xp = x, xm;
        Mat Pp = P, Pm;
        Vec e = rvec(mix64(j, u64(k)), x.size(), 5e-16);
        xp.array() *= 1 + e.array();
        if(!correct(xp, Pp, j, xm, Pm) || !finite(xm)) ok = false;
        if(!ok) break;
        spread = spread.cwiseMax((xm - xn).cwiseAbs());
        D = D.cwiseMax((Pm - Pn).cwiseAbs());
      }
      noise += 1e7 * D.rowwise().maxCoeff();
      if(ok && !(spread.maxCoeff() < 1e-4 * (1 + xn.cwiseAbs().maxCoeff()))) ok = false;
    }
    ++k;
    while(u.size() && u.begin()->first < k) u.erase(u.begin());
    if(finite(xn))
    {
      P = Pn;
      x = xn;
      x.segment<3>(3) = wrap(x.segment<3>(3));
      post(x);
      last = x;
    }
    else
    {
      c.probe("estimate invalid, last one kept");
      x = last;
      P = Pn;
      if(k > 1) resetCov();
      fromInvalid = true;
    }
    return ok;
  }
  bool fromInvalid = false;
  Vec noise, spread; // rounding to expect in the covariance and in the state
};

// compares vectors part by part, each at its own scale
void parts(Ctx & c, const Vec & g, const Vec & w, const std::vector<int> & sz, double tol, const char * key, const char * what, const Vec & noise = Vec())
{
  c.check(g.size() == w.size(), key, "%s has %lld components, not %lld", what, (long long)g.size(), (long long)w.size());
  int o = 0;
  for(int n : sz)
  {
    if(o + n > g.size()) break;
    double t = tol;
    if(noise.size()) t += 300 * noise.segment(o, n).maxCoeff() / (1 + w.segment(o, n).cwiseAbs().maxCoeff());
    c.close(g.segment(o, n), w.segment(o, n), t, key, what);
    o += n;
  }
}

struct ModelRig : Rig
{
  typedef fx::ModelBaseEKFFlexEstimatorIMU E;
  typedef fx::IMUElasticLocalFrameDynamicalSystem F;
  E * p = nullptr;
  F ref;
  unsigned nc = 0;
  double mass = 56.8;
  bool ft = false, absp = false, bias = false, unm = false, lim = true;
  Mat fVar = 1e-4 * Mat::Identity(6, 6);
  double aVar = 1e-4;
  V3 limF = 9.8 * 56.8 * V3(100, 100, 1000), limT = 9.8 * 56.8 * V3(10, 10, 100);
  ModelRig(double dt_) : ref(dt_)
  {
    dt = dt_;
    {
      Arm g;
      e.reset(p = new E(dt));
    }
    mass = p->getRobotMass();
    limF = p->getForcesLimit();
    limT = p->getTorquesLimit();
    dx = Vec::Constant(35, 1e-8);
    dx.segment<3>(3).setConstant(1e-4);
    dx.segment<3>(9).setConstant(1e-4);
    p->setContactModel(1);
    ref.setContactModel(1);
    ref.setFDstep(dx);
    ref.setRobotMass(mass);
    x = last = truth = Vec::Zero(35);
    resetCov();
  }
  so::DynamicalSystemFunctorBase & f() override
  {
    return ref;
  }
  i64 measGiven() override
  {
    return 6 + (ft ? 6 * nc : 0) + (absp ? 6 : 0);
  }
  void grow()
  {
    if(R.rows() == measGiven()) return;
    Mat n = Mat::Zero(measGiven(), measGiven());
    n.block(0, 0, 6, 6) = R.block(0, 0, 6, 6);
    R = n;
    blocks();
  }
  void blocks(bool force = true, bool abs = true)
  {
    i64 o = 6;
    if(ft)
      for(unsigned i = 0; i < nc; ++i, o += 6)
        if(force) R.block(o, o, 6, 6) = fVar;
    if(absp && abs) R.block(o, o, 6, 6) = aVar * Mat::Identity(6, 6);
  }
  void resetCov() override
  {
    R = 1e-6 * Mat::Identity(6, 6);
    grow();
    Q = Mat::Identity(35, 35) * 1e-8;
    Q.diagonal().segment<12>(12).setConstant(1e-4);
    Q.diagonal().segment<6>(24).setConstant(unm ? 1e-2 : 0);
    Q.diagonal().segment<2>(30).setConstant(bias ? 2.5e-10 : 0);
    Q.diagonal().segment<3>(32).setConstant(absp ? 1e-8 : 0);
    P = Q;
  }
  Vec uPred() override
  {
    return u.at(k);
  }
  Mat jacA(const Vec &) override
  {
    return ref.stateDynamicsJacobian();
  }
  Mat jacC(const Vec &, const Vec &, const Vec &) override
  {
    return ref.measureDynamicsJacobian();
  }
  void post(Vec & v) override
  {
    if(!lim) return;
    for(int i = 0; i < 2; ++i)
      for(int j = 0; j < 3; ++j)
      {
        v[12 + 6 * i + j] = std::max(-limF[j], std::min(limF[j], v[12 + 6 * i + j]));
        v[15 + 6 * i + j] = std::max(-limT[j], std::min(limT[j], v[15 + 6 * i + j]));
      }
  }
  Vec input(u64 s) override
  {
    Vec w = rvec(s, 48 + 12 * i64(nc), 0.2);
    V3 cm = V3(0, 0, 0.8) + V3(rvec(mix64(s, 2), 3, 0.05));
    w.head<3>() = cm;
    M3 I = M3(V3(25, 26, 23).asDiagonal()) - mass * sk(cm) * sk(cm);
    w.segment<6>(9) << I(0, 0), I(1, 1), I(2, 2), I(0, 1), I(0, 2), I(1, 2);
    for(unsigned i = 0; i < nc; ++i)
    {
      w.segment<12>(48 + 12 * i).setZero();
      w.segment<3>(48 + 12 * i) = V3(0.05, i ? -0.1 : 0.1, 0) + V3(rvec(mix64(s, 41 + i), 3, 0.02));
      if(s % 3 == 0) w.segment<9>(48 + 12 * i + 3) = rvec(mix64(s, 60 + i), 9, 0.1);
    }
    return w;
  }
  void sizeChanged(i64 oldM, i64 oldU)
  {
    if(oldM != measGiven()) hasY = false;
    if(oldU != 48 + 12 * i64(nc)) u.clear();
  }
  void config(Ctx & c, i64 which, u64 s) override
  {
    i64 om = measGiven(), ou = 48 + 12 * i64(nc);
    bool b = s & 1;
    double pw = std::pow(10., -double(1 + (s >> 4) % 6));
    auto gain = [&](double sc) { return M3(M3((V3::Constant(1.2) + V3(rvec(s, 3))).asDiagonal()) * sc); };
    Arm g;
    switch(((which % 30) + 30) % 30)
    {
      case 0:
      case 1:
      case 2:
        nc = unsigned(s % 3);
        p->setContactsNumber(nc);
        ref.setContactsNumber(nc);
        if(ft) grow();
        break;
      case 3:
      case 4:
        ft = b;
        p->setWithForcesMeasurements(b);
        ref.setWithForceMeasurements(b);
        grow();
        break;
      case 5:
      case 6:
        absp = b;
        p->setWithAbsolutePos(b);
        ref.setWithAbsolutePosition(b);
        grow();
        break;
      case 7:
        bias = b;
        p->setWithComBias(b);
        ref.setWithComBias(b);
        break;
      case 8:
        unm = b;
        p->setWithUnmodeledForces(b);
        ref.setWithUnmodeledForces(b);
        break;
      case 9:
        dt = 1e-3 * double(1 + s % 6);
        p->setSamplingPeriod(dt);
        ref.setSamplingPeriod(dt);
        break;
      case 10:
        mass = 40 + double(s % 40);
        p->setRobotMass(mass);
        ref.setRobotMass(mass);
        u.clear(); // an input's inertia goes with the mass
        p->getEKF().clearInputs();
        break;
      case 11:
      {
        M3 m = gain(30000);
        p->setKfe(m);
        ref.setKfe(m);
        break;
      }
      case 12:
      {
        M3 m = gain(500);
        p->setKte(m);
        ref.setKte(m);
        break;
      }
      case 13:
      {
        M3 m = gain(500);
        p->setKfv(m);
        ref.setKfv(m);
        break;
      }
      case 14:
      {
        M3 m = gain(50);
        p->setKtv(m);
        ref.setKtv(m);
        break;
      }
      case 15:
        p->setContactModel(1 + b);
        ref.setContactModel(1 + b);
        break;
      case 16:
        if(s & 2)
        {
          V3 pe(0, 0, 1 + double((s >> 8) % 3));
          p->setPe(pe);
          ref.setPe(pe);
        }
        else
        {
          M3 m = gain(20000), m2 = gain(400), m3 = gain(300), m4 = gain(30);
          p->setKfeRopes(m);
          ref.setKfeRopes(m);
          p->setKteRopes(m2);
          ref.setKteRopes(m2);
          p->setKfvRopes(m3);
          ref.setKfvRopes(m3);
          p->setKtvRopes(m4);
          ref.setKtvRopes(m4);
        }
        break;
      case 17:
        lim = b;
        p->setLimitOn(b);
        break;
      case 18:
      case 19:
        limF = V3(1, 1, 1) * double(5 + s % 400) + V3(0, 7, 11);
        p->setForcesLimit(limF);
        break;
      case 20:
      case 21:
        limT = V3(1, 1, 1) * (0.5 + double(s % 30)) + V3(0, 0.7, 1.1);
        p->setTorquesLimit(limT);
        break;
      case 22:
        fVar = pw * Mat::Identity(6, 6);
        p->setForceVariance(pw);
        blocks(true, false);
        break;
      case 23:
      {
        M3 v = rspd(s, 3, 1e-4, 1e-1);
        fVar.setZero();
        fVar.block(0, 0, 3, 3) = v;
        fVar.block(3, 3, 3, 3) = v;
        p->setForceVariance(v);
        blocks(true, false);
        break;
      }
      case 24:
        aVar = pw;
        p->setAbsolutePosVariance(pw);
        blocks(false, true);
        break;
      case 25:
        p->setUnmodeledForceVariance(pw);
        unm = true;
        ref.setWithUnmodeledForces(true);
        P.middleRows(24, 6).setZero();
        P.middleCols(24, 6).setZero();
        P.diagonal().segment<6>(24).setConstant(pw);
        break;
      case 26:
        p->setUnmodeledForceProcessVariance(pw);
        unm = true;
        ref.setWithUnmodeledForces(true);
        Q.diagonal().segment<6>(24).setConstant(pw);
        break;
      case 27:
        Q = rspd(s, 35, 1e-8, 1e-5);
        p->setProcessNoiseCovariance(Q);
        break;
      case 28:
      {
        i64 n = (s & 2) ? measGiven() : 6;
        R = rspd(s, n, 1e-6, 1e-3);
        p->setMeasurementNoiseCovariance(R);
        grow();
        break;
      }
      default:
        P = Q;
        p->resetStateCovarianceMatrix();
        break;
    }
    sizeChanged(om, ou);
    c.check(p->getMeasurementSize() == measGiven() && p->getInputSize() == 48 + 12 * i64(nc) && p->getStateSize() == 35, "sizes",
            "the sizes are %lld measurements and %lld inputs", (long long)p->getMeasurementSize(), (long long)p->getInputSize());
    c.check(p->getWithForcesMeasurements() == ft && p->getWithAbsolutePos() == absp && p->getWithComBias() == bias && p->getWithUnmodeledForces() == unm
                && p->getContactsNumber() == nc && p->getLimitOn() == lim,
            "settings", "a setting is not the one given");
  }
  void compareCov(Ctx & c) override
  {
    c.close(LIB(Mat(p->getMeasurementNoiseCovariance())), R, 1e-12, "sensor-covariance", "the covariance of the sensors");
    c.close(LIB(Mat(p->getEKF().getR())), R, 1e-12, "sensor-covariance", "the covariance of the sensors in use");
    c.close(LIB(Mat(p->getProcessNoiseCovariance())), Q, 1e-12, "process-covariance", "the covariance of the process");
    c.close(LIB(Mat(p->getEKF().getQ())), Q, 1e-12, "process-covariance", "the covariance of the process in use");
  }
  void extraQuery(Ctx & c, i64 which, u64) override
  {
    switch(((which % 7) + 7) % 7)
    {
      case 6:
        c.close(LIB(Mat(p->getKfe())), Mat(ref.getKfe()), 1e-12, "stiffness", "the linear stiffness");
        c.close(LIB(Mat(p->getKfv())), Mat(ref.getKfv()), 1e-12, "stiffness", "the linear damping");
        c.close(LIB(Mat(p->getKte())), Mat(ref.getKte()), 1e-12, "stiffness", "the angular stiffness");
        c.close(LIB(Mat(p->getKtv())), Mat(ref.getKtv()), 1e-12, "stiffness", "the angular damping");
        break;
      case 0:
      {
        Vec g = LIB(Vec(p->getForcesAndMoments())), z = LIB(Vec(p->getFlexibilityVector()));
        c.close(g, z.segment(12, 6 * nc), 1e-12, "forces", "the contact forces");
        break;
      }
      case 1:
      {
        if(!u.count(k) || !finite(u.at(k))) return;
        Vec g = LIB(Vec(p->computeAccelerations())), z = LIB(Vec(p->getFlexibilityVector()));
        if(finite(z)) c.close(g, Vec(ref.computeAccelerations(z, u.at(k))), 1e-9, "accelerations", "the accelerations");
        break;
      }
      case 2:
      case 3:
      {
        if(!u.count(k)) return;
        Vec g = which % 2 ? LIB(Vec(p->getMomentaDotFromForces())) : LIB(Vec(p->getMomentaDotFromKinematics()));
        Vec z = LIB(Vec(p->getFlexibilityVector()));
        Vec w = which % 2 ? Vec(ref.getMomentaDotFromForces(z, u.at(k))) : Vec(ref.getMomentaDotFromKinematics(z, u.at(k)));
        if(!on) w.setZero();
        if(!finite(w)) return;
        c.close(g, w, 1e-9, "momenta", "the derivative of the momenta");
        break;
      }
      case 4: c.close(LIB(Vec(p->getStateCovariance())), Vec(P.diagonal()), 1e-6, "variances", "the variances of the estimate"); break;
      default:
      {
        if(p->getCMatrix().rows() != measGiven()) return; // nothing estimated since a change of sensors
        Mat O = LIB(Mat(p->computeLocalObservationMatrix()));
        c.check(O.rows() == 2 * measGiven() && O.cols() == 35, "observation-matrix", "the local observation matrix is %lldx%lld", (long long)O.rows(), (long long)O.cols());
        break;
      }
    }
  }
};

struct FixedRig : Rig
{
  typedef fx::FixedContactEKFFlexEstimatorIMU E;
  typedef fx::IMUFixedContactDynamicalSystem F;
  E * p = nullptr;
  F ref;
  unsigned nc = 0;
  Mat R6;
  double virt = 1e-10;
  FixedRig(double dt_) : ref(dt_)
  {
    dt = dt_;
    {
      Arm g;
      e.reset(p = new E(dt));
    }
    virt = p->getVirtualMeasurementsCovariance();
    dx = Vec::Constant(18, 1e-8);
    dx.segment<3>(3).setConstant(1e-4);
    dx.segment<3>(9).setConstant(1e-4);
    x = last = truth = Vec::Zero(18);
    resetCov();
    P = Q;
  }
  so::DynamicalSystemFunctorBase & f() override
  {
    return ref;
  }
  i64 measGiven() override
  {
    return 6;
  }
  void setR()
  {
    R = virt * Mat::Identity(6 + 3 * nc, 6 + 3 * nc);
    R.block(0, 0, 6, 6) = R6;
  }
  void resetCov() override
  {
    R6 = 1e-6 * Mat::Identity(6, 6);
    setR();
    Vec q(18);
    q << Vec::Constant(6, 1e-8), Vec::Constant(6, 1e-4), Vec::Constant(6, 1e-2);
    Q = q.asDiagonal();
    P = 1e-2 * Mat::Identity(18, 18);
  }
  Vec uPred() override
  {
    return Vec::Zero(15);
  }
  Mat jacA(const Vec & xb) override
  {
    Mat A(18, 18);
    for(int i = 0; i < 18; ++i)
    {
      Vec z = x;
      z[i] += dx[i];
      A.col(i) = (Vec(ref.stateDynamics(z, uPred(), k)) - xb) / dx[i];
    }
    return A;
  }
  Mat jacC(const Vec & xb, const Vec & yb, const Vec & uu) override
  {
    Mat C(yb.size(), 18);
    for(int i = 0; i < 18; ++i)
    {
      Vec z = xb;
      z[i] += dx[i];
      C.col(i) = (Vec(ref.measureDynamics(z, uu, k + 1)) - yb) / dx[i];
    }
    return C;
  }
  Vec full(const Vec & v) override
  {
    Vec w = Vec::Zero(6 + 3 * nc);
    w.head(6) = v;
    return w;
  }
  Vec input(u64 s) override
  {
    return rvec(s, 15, 0.4);
  }
  void config(Ctx & c, i64 which, u64 s) override
  {
    Arm g;
    switch(((which % 9) + 9) % 9)
    {
      case 0:
      case 1:
      {
        unsigned n = unsigned(s % 4);
        if(n != nc) hasY = false;
        nc = n;
        p->setContactsNumber(nc);
        ref.setContactsNumber(nc);
        setR();
        break;
      }
      case 2:
      case 3:
        if(nc)
        {
          unsigned i = unsigned(s % nc);
          V3 v = rvec(s, 3, 0.4);
          p->setContactPosition(i, v);
          ref.setContactPosition(i, v);
        }
        break;
      case 4:
        virt = std::pow(10., -double(2 + s % 7));
        p->setVirtualMeasurementsCovariance(virt);
        setR();
        break;
      case 5:
        R6 = rspd(s, 6, 1e-6, 1e-2);
        p->setMeasurementNoiseCovariance(R6);
        setR();
        break;
      case 6:
        Q = rspd(s, 18, 1e-7, 1e-3);
        p->setProcessNoiseCovariance(Q);
        break;
      case 7:
        dt = 1e-3 * double(1 + s % 10);
        p->setSamplingPeriod(dt);
        ref.setSamplingPeriod(dt);
        break;
      default: break;
    }
    c.check(p->getMeasurementSize() == 6 && p->getInputSize() == 15 && p->getStateSize() == 18, "sizes", "the sizes are wrong");
    c.check(p->getVirtualMeasurementsCovariance() == virt, "settings", "a setting is not the one given");
  }
  void compareCov(Ctx & c) override
  {
    c.close(LIB(Mat(p->getMeasurementNoiseCovariance())), R6, 1e-12, "sensor-covariance", "the covariance of the sensors");
    c.close(LIB(Mat(p->getEKF().getR())), R, 1e-12, "sensor-covariance", "the covariance of the sensors in use");
    c.close(LIB(Mat(p->getProcessNoiseCovariance())), Q, 1e-12, "process-covariance", "the covariance of the process");
    c.close(LIB(Mat(p->getEKF().getQ())), Q, 1e-12, "process-covariance", "the covariance of the process in use");
  }
};

void exec(const Case & kase, Ctx & c)
{
  bool model = kase.c("kind") == 0;
  double dt = 1e-3 * double(1 + kase.c("dt") % 6);
  std::unique_ptr<Rig> r;
  if(model)
    r.reset(new ModelRig(dt));
  else
    r.reset(new FixedRig(dt));
  Rig & q = *r;
  ModelRig * mr = model ? static_cast<ModelRig *>(r.get()) : nullptr;
  std::vector<int> sz = model ? std::vector<int>{3, 3, 3, 3, 3, 3, 3, 3, 6, 2, 3} : std::vector<int>{3, 3, 3, 3, 3, 3};
  i64 steps = 0, faults = 0;
  u64 c1 = 0;

  auto refused = [&](std::function<void()> fn) {
    try
    {
      Arm g;
      fn();
    }
    catch(AssertFailure &)
    {
      return true;
    }
    return false;
  };
  // reads the estimate and compares it with the reference
  auto query = [&](u64 s, bool fail) {
    bool ok = true, pending = q.hasY;
    bool failed = false;
    if(pending && q.on) // the harness must have given the inputs the model needs
    {
      if(!q.u.count(q.k) && model) return;
      if(!q.u.count(q.k + 1)) return;
    }
    if(pending && q.on)
      ok = q.step(c);
    else if(!q.on)
    {
      q.x.setZero();
      q.last.setZero();
      if(pending)
      {
        q.hasY = false;
        q.u.clear();
        q.P = q.Q;
      }
    }
    if(fail && q.warm > 2)
    {
      alloc::failAt(1 + i64(s % 300));
      try
      {
        Arm g;
        q.e->getFlexibilityVector();
      }
      catch(std::bad_alloc &)
      {
        c.fault("allocation failure");
        failed = true;
      }
      alloc::failAt(0);
    }
    // the first read may be any of the outputs
    Vec g;
    Eigen::Matrix4d H;
    bool inv = q.fromInvalid;
    q.fromInvalid = false;
    switch((s >> 9) % 4)
    {
      case 0: break;
      case 1: H = LIB(Eigen::Matrix4d(q.e->getFlexibility())); break;
      case 2:
        if(model && pending) mr->extraQuery(c, i64((s >> 12) % 4), s);
        break;
      default:
        if(q.u.count(q.k))
        {
          Vec h = LIB(Vec(q.e->getSimulatedMeasurement()));
          Vec z = LIB(Vec(q.e->getFlexibilityVector()));
          Vec w = q.f().measureDynamics(z, q.u.at(q.k), q.k);
          if(q.on && finite(w)) c.close(h, w, 1e-9, "simulated-measurement", "the measurement simulated from the estimate");
        }
        break;
    }
    g = LIB(Vec(q.e->getFlexibilityVector()));
    Mat P = LIB(Mat(q.e->getFlexibilityCovariance()));
    if(pending && q.on && ok && !failed && q.lastXb.size() && finite(q.lastYb) && finite(q.lastInno) && (s >> 9) % 4 < 2)
    {
      Vec a = LIB(Vec(q.e->getLastPrediction())), b = LIB(Vec(q.e->getLastPredictedMeasurement())), d = LIB(Vec(q.e->getInnovation()));
      parts(c, a, q.lastXb, sz, 1e-6, "last-prediction", "the last predicted state");
      c.close(b, q.lastYb, 1e-5, "last-prediction", "the last predicted measurement");
      parts(c, d, q.lastInno, sz, 1e-6, "innovation", "the innovation", q.spread);
    }
    c.check(finite(g), "not-finite", "the estimate contains invalid numbers");
    if(mr && mr->lim && pending && q.on && !inv)
      for(int i = 0; i < 2; ++i)
        for(int j = 0; j < 3; ++j)
        {
          c.check(std::fabs(g[12 + 6 * i + j]) <= mr->limF[j] * (1 + 1e-12), "limit", "force %d of contact %d is %g, the limit is %g", j, i, g[12 + 6 * i + j], mr->limF[j]);
          c.check(std::fabs(g[15 + 6 * i + j]) <= mr->limT[j] * (1 + 1e-12), "limit", "torque %d of contact %d is %g, the limit is %g", j, i, g[15 + 6 * i + j], mr->limT[j]);
        }
    c.check(!pending || inv || !q.on || g.segment<3>(3).norm() <= 1.5 * M_PI + 1e-9, "orientation-range", "the orientation vector has norm %g", g.segment<3>(3).norm());
    if(!ok)
      c.probe("not comparable (ill conditioned)");
    else
    {
      const char * what = pending ? (failed ? "the estimate after a failed allocation" : "the estimate") : "the estimate without a new measurement";
      // two rotation vectors may denote the same rotation
      Vec w = q.last;
      double ang = (rexp(g.segment<3>(3)) - rexp(w.segment<3>(3))).norm();
      c.check(ang < 1e-6 + (pending && q.spread.size() ? 300 * q.spread.segment<3>(3).maxCoeff() : 0), "estimate", "%s: the orientation is %g off", what, ang);
      w.segment<3>(3) = g.segment<3>(3);
      parts(c, g, w, sz, 1e-6, "estimate", what, pending && q.spread.size() == w.size() ? q.spread : Vec());
      if(finite(q.P) || finite(P))
      {
        Vec d = q.P.diagonal().cwiseAbs();
        if(pending && q.noise.size() == d.size()) d += q.noise;
        d = d.cwiseSqrt().cwiseMax(1e-9).eval();
        Vec i = d.cwiseInverse();
        Mat a = i.asDiagonal() * P * i.asDiagonal(), b = i.asDiagonal() * q.P * i.asDiagonal();
        c.close(a, b, 1e-4, "estimate-covariance", "the covariance of the estimate (scaled)");
      }
      if(H.size() && (s >> 9) % 4 == 1)
      {
        Eigen::Matrix4d w4 = Eigen::Matrix4d::Identity();
        w4.topLeftCorner<3, 3>() = rexp(g.segment<3>(3));
        w4.topRightCorner<3, 1>() = g.head<3>();
        c.close(H, w4, 1e-9, "homogeneous", "the flexibility as a homogeneous matrix");
      }
    }
    q.last = g;
    if(pending || !q.on) q.x = g;
    q.P = P;
    // asking again changes nothing
    Vec g2 = LIB(Vec(q.e->getFlexibilityVector()));
    Mat P2 = LIB(Mat(q.e->getFlexibilityCovariance()));
    auto eq = [](double a, double b) { return a == b || (a != a && b != b); };
    bool same = g2.size() == g.size() && P2.size() == P.size();
    for(i64 i = 0; same && i < g.size(); ++i) same = eq(g[i], g2[i]);
    for(i64 i = 0; same && i < P.size(); ++i) same = eq(P.data()[i], P2.data()[i]);
    c.check(same, "query-changes", "asking for the estimate again changes it");
    c.fold(g);
    q.compareCov(c);
    if(pending)
    {
      ++steps;
      ++q.warm;
      q.fed = true;
      c.simTime += q.dt;
      c.state(mix64(mix64(c1, u64(kase.c("kind"))), u64(q.measGiven()) * 8 + u64(q.on) * 4 + u64(inv) * 2 + u64(failed)));
    }
  };
  auto giveInput = [&](const Vec & v, bool noted = true) {
    LIB((q.e->setMeasurementInput(v), 0));
    if(q.u.empty()) q.u[q.k] = v;
    q.u[q.k + 1] = v;
    (void)noted;
  };

  for(size_t i = 0; i < kase.ops.size(); ++i)
  {
    c.opIndex = int(i);
    const Op & o = kase.ops[i];
    u64 s = u64(o.arg(1));
    if(o.n == "step")
    {
      i64 fault = o.arg(2), order = o.arg(3);
      Vec v = q.input(s);
      if(q.u.count(q.k) && (s >> 20) % 3) // a slowly varying input most of the time
      {
        v = 0.9 * q.u.at(q.k) + 0.1 * v;
        if(!finite(v)) v = q.input(s);
      }
      // the simulated world
      Vec ys;
      {
        Vec tu = model ? v : Vec(Vec::Zero(15));
        q.truth = q.f().stateDynamics(q.truth, tu, q.k);
        if(!model) q.truth.tail<6>() = rvec(mix64(s, 3), 6, 0.2);
        if(!finite(q.truth) || q.truth.head<12>().cwiseAbs().maxCoeff() > (model ? 1.5 : 3)) q.truth.setZero();
        if(model && q.truth.segment<12>(12).cwiseAbs().maxCoeff() > 3000) q.truth.setZero();
        ys = Vec(q.f().measureDynamics(q.truth, v, q.k + 1)).head(q.measGiven());
        ys += rvec(mix64(s, 4), ys.size(), 1e-2);
      }
      switch(fault)
      {
        case 1: ys[i64(s % u64(ys.size()))] = std::nan(""); break;
        case 2: ys[i64(s % u64(ys.size()))] = (s & 1) ? INFINITY : -INFINITY; break;
        case 3: v[i64(s % u64(v.size()))] = std::nan(""); break;
        case 4: v[i64(s % u64(v.size()))] = INFINITY; break;
        case 5: ys *= 20; break;       // outlier
        case 6: ys.setZero(); break;   // dead sensors
        default: break;
      }
      if(fault)
      {
        static const char * names[] = {"", "invalid number in the measurement", "infinite measurement", "invalid number in the input", "infinite input", "outlier", "dead sensors"};
        c.fault(names[fault % 7]);
        ++faults;
      }
      if(order & 1)
      {
        if(order & 4) // given, then corrected
        {
          Vec z = ys + Vec::Constant(ys.size(), 3.);
          LIB((q.e->setMeasurement(z), 0));
          c.probe("measurement given again");
        }
        LIB((q.e->setMeasurement(ys), 0));
        giveInput(v);
      }
      else
      {
        if(order & 4) giveInput(q.input(mix64(s, 8)));
        giveInput(v);
        LIB((q.e->setMeasurement(ys), 0));
      }
      q.y = q.full(ys);
      q.hasY = true;
      if(order & 2) // the estimate is not asked for immediately
      {
        if((s >> 30) & 1)
        {
          Vec g = LIB(Vec(q.e->getMeasurement())), h = LIB(Vec(q.e->getMeasurementInput()));
          c.check(g.size() == q.y.size() && h.size() == v.size(), "stored", "the stored measurement or input has the wrong size");
          if(fault == 0 || fault > 4)
          {
            c.close(g, q.y, 1e-15, "stored", "the stored measurement");
            c.close(h, v, 1e-15, "stored", "the stored input");
          }
        }
      }
      else
        query(s, o.arg(4));
    }
    else if(o.n == "input")
    {
      if(!model) continue;
      Vec v = q.input(s);
      if(q.u.count(q.k) || q.u.empty())
      {
        LIB((q.e->setInput(v), 0));
        q.u[q.k] = v;
        c.close(LIB(Vec(q.e->getInput())), v, 1e-15, "stored", "the stored input");
      }
    }
    else if(o.n == "query")
      query(s, o.arg(2));
    else if(o.n == "config")
    {
      if(q.hasY && o.arg(2)) query(s, false);
      q.config(c, o.arg(0), s);
      q.compareCov(c);
      c1 = u64(o.arg(0)) + 1;
      q.warm = 0;
      // a sample waits for its inputs when these were dropped
      if(q.hasY && (!q.u.count(q.k + 1) || (model && !q.u.count(q.k)))) giveInput(q.input(mix64(s, 9)));
    }
    else if(o.n == "predict")
    {
      if((model && !q.u.count(q.k)) || !q.on) continue;
      Vec w = q.pred();
      Vec g = LIB(Vec(q.e->getPrediction()));
      if(finite(w)) parts(c, g, w, sz, 1e-6, "prediction", "the predicted state");
      if(q.u.count(q.k + 1))
      {
        Vec h = LIB(Vec(q.e->getPredictedMeasurement())), hw = q.f().measureDynamics(w, q.u.at(q.k + 1), q.k + 1);
        if(finite(hw)) c.close(h, hw, 1e-5, "predicted-measurement", "the predicted measurement");
        if((s & 1) && q.u.count(q.k) && !q.hasY) // looks at the present between the prediction and the measurement
        {
          Vec a = LIB(Vec(q.e->getSimulatedMeasurement())), aw = q.f().measureDynamics(q.x, q.u.at(q.k), q.k);
          if(finite(aw)) c.close(a, aw, 1e-5, "simulated-measurement", "the measurement simulated from the estimate");
        }
      }
    }
    else if(o.n == "guess")
    {
      Vec x = Vec::Zero(q.x.size());
      x.head<12>() = rvec(s, 12, 0.1);
      if(model) x.tail(23) = rvec(mix64(s, 1), 23, 0.01), x.segment<12>(12) = rvec(mix64(s, 3), 12, (s >> 7) % 3 ? 100 : 5000);
      x.segment<3>(3) = rvec(mix64(s, 2), 3, (s >> 5) % 4 ? 0.2 : 4.5);
      bool wait = q.hasY;
      switch(o.arg(0) % 4)
      {
        case 0: LIB((q.e->setFlexibilityGuess(x), 0)); break;
        case 1:
        {
          Vec v = x.head<6>();
          x.tail(x.size() - 6).setZero();
          LIB((q.e->setFlexibilityGuess(v), 0));
          break;
        }
        case 2:
        {
          Eigen::Matrix4d H = Eigen::Matrix4d::Identity();
          x.segment<3>(3) = rvec(mix64(s, 2), 3, 0.6);
          H.topLeftCorner<3, 3>() = rexp(x.segment<3>(3));
          H.topRightCorner<3, 1>() = x.head<3>();
          x.tail(x.size() - 6).setZero();
          if(wait || !q.on) continue;
          LIB((q.e->setFlexibilityGuess(H), 0));
          break;
        }
        default:
        {
          if(!mr) continue;
          Vec b = rvec(s, 2, 0.05);
          x = q.x;
          x.segment<2>(30) = b;
          LIB((mr->p->setComBiasGuess(b), 0));
          break;
        }
      }
      q.x = q.last = x;
      if(!wait && q.on)
      {
        Vec g = LIB(Vec(q.e->getFlexibilityVector()));
        parts(c, g, x, sz, 1e-9, "guess", "the estimate after a guess");
        q.x = q.last = g; // the differentiated models amplify rounding
      }
    }
    else if(o.n == "covariance")
    {
      switch(o.arg(0) % 2)
      {
        case 0:
          q.P = rspd(s, q.x.size(), 1e-7, (s >> 9) % 3 ? 1e-4 : 0.3);
          LIB((q.e->setFlexibilityCovariance(q.P), 0));
          break;
        default:
          LIB((q.e->resetCovarianceMatrices(), 0));
          q.resetCov();
          break;
      }
      q.compareCov(c);
      c.close(LIB(Mat(q.e->getFlexibilityCovariance())), q.P, 1e-12, "estimate-covariance", "the covariance given");
    }
    else if(o.n == "onoff")
    {
      if(!mr) continue;
      bool b = o.arg(0);
      if(q.hasY && q.on) query(s, false);
      LIB((mr->p->setOn(b), 0));
      q.on = b;
      query(mix64(s, 1), false);
    }
    else if(o.n == "refused")
    {
      Vec bad = Vec::Zero(q.measGiven() + ((s & 1) ? 1 : -1));
      c.check(refused([&] { q.e->setMeasurement(bad); }), "size-accepted", "a measurement of the wrong size is accepted");
      Vec badU = Vec::Zero(q.input(1).size() + ((s & 1) ? 1 : -1));
      c.check(refused([&] { q.e->setMeasurementInput(badU); }), "size-accepted", "an input of the wrong size is accepted");
      c.fault("refused size");
    }
    else if(o.n == "extra" && mr)
    {
      if(q.hasY && q.on) query(s, false);
      mr->extraQuery(c, o.arg(0), s);
    }
    if(c.verbose) c.log("%s %lld k=%lld", o.n.c_str(), (long long)o.arg(0), (long long)q.k);
  }
  // once faults stop: valid samples give a valid estimate again at once (the inputs of the past need one more)
  if(!q.hasY || q.u.count(q.k + 1))
  {
    query(1, false);
    for(int j = 0; j < 3 && q.on; ++j)
    {
      Vec v = q.input(u64(j));
      giveInput(v);
      if(model && !finite(q.u.at(q.k)))
      {
        LIB((q.e->setInput(v), 0));
        q.u[q.k] = v;
      }
      Vec ys = Vec(q.f().measureDynamics(q.truth, v, q.k + 1)).head(q.measGiven());
      LIB((q.e->setMeasurement(ys), 0));
      q.y = q.full(ys);
      q.hasY = true;
      query(u64(j), false);
    }
    c.check(!q.on || finite(q.P), "no-recovery", "the covariance still contains invalid numbers three valid samples after the last fault");
  }
  c.nontrivial = steps > 2;
}
Case gen(Rng & r, bool th)
{
  Case c;
  c.cfg["kind"] = r.chance(0.6) ? 0 : 1;
  c.cfg["dt"] = r.range(0, 5);
  i64 n = r.range(5, th ? 90 : 35);
  double flt = r.uni(0, 0.4), cf = r.uni(0.3, 3);
  bool alloc = r.chance(0.4);
  if(c.cfg["kind"] == 0)
  {
    c.add("config", {0, r.range(0, 20) * 3 + r.range(1, 2)});
    for(i64 w : {3, 5, 7, 8})
      if(r.chance(0.4)) c.add("config", {w, 1});
    if(r.chance(0.5)) c.add("config", {18, r.seed()});
    if(r.chance(0.5)) c.add("config", {20, r.seed()});
  }
  if(r.chance(0.8)) c.add("covariance", {1, 0});
  for(i64 i = 0; i < n; ++i)
  {
    i64 s = r.seed();
    switch(r.pick({6, 0.4, 0.6, cf, 0.8, 0.4, 0.3, 0.25, 0.2, 0.5}))
    {
      case 0: c.add("step", {0, s, r.chance(flt) ? r.range(1, 6) : 0, r.chance(0.2) ? r.range(0, 7) : r.range(0, 1), alloc && r.chance(0.3)}); break;
      case 1: c.add("input", {0, s}); break;
      case 2: c.add("query", {0, s, alloc && r.chance(0.3)}); break;
      case 3: c.add("config", {r.range(0, 29), s, r.range(0, 1)}); break;
      case 4: c.add("predict", {0, s}); break;
      case 5: c.add("guess", {r.range(0, 3), s}); break;
      case 6: c.add("covariance", {r.range(0, 1), s}); break;
      case 7:
        c.add("onoff", {0, s});
        for(i64 j = r.range(0, 2); j > 0; --j) c.add("step", {0, r.seed(), 0, r.range(0, 3), 0});
        c.add("onoff", {1, r.seed()});
        break;
      case 8: c.add("refused", {0, s}); break;
      default: c.add("extra", {r.range(0, 6), s}); break;
    }
  }
  return c;
}
Reg rC13({"C13", "flexibility", 7000, 120000,
          "random histories of samples, corrected samples, late queries, contact and sensor changes, guesses, switching off and on, with invalid, infinite, dead and "
          "outlying data and failing allocations, on one of the two estimators; every estimate compared with one predict/correct step of a separate model from the "
          "last estimate; non-trivial: more than two estimated samples; distinct: different op list",
          "model-based and fixed-contact flexibility estimators, extended Kalman filter, their system models (a second instance serves the reference step)",
          "the robot and its sensors (simulated world)", gen, exec});
} // namespace
} // namespace sim
