// C10: objects do not influence each other, nor depend on memory content, on what ran before or on the lifetime of the
// object they were copied from.  Several participants run interleaved (threads under the scheduler, or operations in one
// thread); each one's transcript is compared bit for bit with the transcript it has alone in a fresh process.
#include "core.hpp"

#include <atomic>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>

#include <state-observation/dynamics-estimators/kinetics-observer.hpp>
#include <state-observation/dynamical-system/bidim-elastic-inv-pendulum-dyn-sys.hpp>
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
#include <state-observation/dynamical-system/imu-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-magnetometer-dynamical-system.hpp>
#include <state-observation/dynamical-system/imu-mltpctive-dynamical-system.hpp>
#include <state-observation/dynamics-estimators/lipm-dcm-estimator.hpp>
#include <state-observation/dynamics-estimators/unidim-lipm-dcm-estimator.hpp>
#include <state-observation/flexibility-estimation/fixed-contact-ekf-flex-estimator-imu.hpp>
#include <state-observation/flexibility-estimation/imu-elastic-local-frame-dynamical-system.hpp>
#include <state-observation/flexibility-estimation/model-base-ekf-flex-estimator-imu.hpp>
#include <state-observation/observer/extended-kalman-filter.hpp>
#include <state-observation/observer/linear-kalman-filter.hpp>
#include <state-observation/observer/tilt-estimator.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/tools/logger.hpp>
#include <state-observation/tools/rigid-body-kinematics.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;

struct Out
{
  u64 h = 7;
  double last = 0;
  void add(u64 v)
  {
    h = mix64(h ^ v);
  }
  void add(double d)
  {
    u64 b;
    if(d != d)
      b = 0x7ff8dead;
    else
      std::memcpy(&b, &d, 8);
    add(b);
    last = d;
  }
  template<typename D>
  void add(const Eigen::MatrixBase<D> & mm)
  {
    Mat m = mm;
    add(u64(m.rows()));
    add(u64(m.cols()));
    for(i64 i = 0; i < m.size(); ++i) add(m.data()[i]);
  }
};

struct Part
{
  u64 s;
  explicit Part(u64 seed) : s(seed) {}
  virtual ~Part() {}
  virtual void step(i64 i, Out & o) = 0;
  virtual Part * clone()
  {
    return nullptr;
  }
  u64 at(i64 i, u64 k) const
  {
    return mix64(s, u64(i) * 64 + k);
  }
  V3 v3(i64 i, u64 k, double sc) const
  {
    return rvec(at(i, k), 3, sc);
  }
};

struct PLinear : Part
{
  so::LinearKalmanFilter f;
  PLinear(u64 seed) : Part(seed)
  {
    i64 n = 1 + i64(seed % 4), m = 1 + i64((seed >> 4) % 3), p = i64((seed >> 8) % 3);
    Mat A = rstable(at(-1, 1), n, 0.9), B = rmat(at(-1, 2), n, p), C = rmat(at(-1, 3), m, n), D = rmat(at(-1, 4), m, p);
    Mat Q = rspd(at(-1, 5), n, 0.1, 1), R = rspd(at(-1, 6), m, 0.1, 1);
    Vec x = rvec(at(-1, 7), n);
    Arm g;
    if(seed & (1u << 20))
    {
      f.setStateSize(n);
      f.setMeasureSize(m);
      f.setInputSize(p);
    }
    else
      f = so::LinearKalmanFilter(n, m, p);
    f.setA(A);
    f.setB(B);
    f.setC(C);
    f.setD(D);
    f.setQ(Q);
    f.setR(R);
    f.setState(x, 0);
    f.setStateCovariance(Q);
  }
  void step(i64 i, Out & o) override
  {
    i64 m = f.getMeasureSize(), p = f.getInputSize();
    Vec y = rvec(at(i, 1), m), u = rvec(at(i, 2), p), u2 = rvec(at(i + 1, 2), p);
    Arm g;
    i64 k = f.getCurrentTime();
    if(p)
    {
      f.setInput(u, k);
      f.setInput(u2, k + 1);
    }
    f.setMeasurement(y, k + 1);
    o.add(f.getEstimatedState(k + 1));
    o.add(f.getStateCovariance());
    o.add(f.getLastPrediction());
  }
  Part * clone() override
  {
    Arm g;
    return new PLinear(*this);
  }
};

struct Nonlin : so::DynamicalSystemFunctorBase
{
  u64 s;
  explicit Nonlin(u64 seed) : s(seed) {}
  so::Vector stateDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex) override
  {
    sched::yieldPoint();
    return 0.8 * x + 0.1 * x.array().sin().matrix() + so::Vector::Constant(x.size(), u.sum() * 0.1);
  }
  so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex) override
  {
    sched::yieldPoint();
    return x.head(2) + 0.2 * x.tail(2).array().cos().matrix() + 0.3 * u;
  }
  so::Index getStateSize() const override
  {
    return 3;
  }
  so::Index getInputSize() const override
  {
    return 2;
  }
  so::Index getMeasurementSize() const override
  {
    return 2;
  }
};
struct PExtended : Part
{
  Nonlin fn;
  so::ExtendedKalmanFilter f;
  Vec dx;
  PExtended(u64 seed) : Part(seed), fn(seed), f(3, 2, 2, true, true)
  {
    dx = Vec::Constant(3, 1e-6);
    Arm g;
    f.setFunctor(&fn);
    f.setState(rvec(at(-1, 1), 3), 0);
    f.setStateCovariance(Mat::Identity(3, 3));
    f.setQ(rspd(at(-1, 2), 3, 0.01, 0.1));
    f.setR(rspd(at(-1, 3), 2, 0.01, 0.1));
  }
  PExtended(const PExtended & o) : Part(o), fn(o.fn), f(o.f), dx(o.dx)
  {
    f.setFunctor(&fn);
  }
  void step(i64 i, Out & o) override
  {
    Vec y = rvec(at(i, 1), 2), u = rvec(at(i, 2), 2), u2 = rvec(at(i + 1, 2), 2);
    Arm g;
    i64 k = f.getCurrentTime();
    f.setInput(u, k);
    f.setInput(u2, k + 1);
    f.setMeasurement(y, k + 1);
    f.setA(f.getAMatrixFD(dx));
    f.setC(f.getCMatrixFD(dx));
    o.add(f.getEstimatedState(k + 1));
    o.add(f.getStateCovariance());
    o.add(f.getInnovation());
  }
  Part * clone() override
  {
    Arm g;
    return new PExtended(*this);
  }
};

struct PTilt : Part
{
  so::TiltEstimator e;
  PTilt(u64 seed) : Part(seed), e(5. + double(seed % 20), 3., 15.)
  {
    Arm g;
    if(seed & 16) e.setSamplingTime(0.004);
    Vec x(9);
    x << v3(-1, 1, 1), V3::UnitZ(), V3::UnitZ();
    e.setState(x, 0);
  }
  void step(i64 i, Out & o) override
  {
    V3 a = v3(i, 1, 10), w = v3(i, 2, 2), pp = v3(i, 3, 1), vv = v3(i, 4, 1), wv = v3(i, 5, 1);
    M3 R = rrot(at(i, 6));
    Arm g;
    if(s & 8) // the settings made explicitly or left at their initial values
    {
      e.setSensorPositionInC(pp);
      e.setSensorOrientationInC(R);
      e.setSensorLinearVelocityInC(vv);
      e.setSensorAngularVelocityInC(wv);
      e.setControlOriginVelocityInW(V3(vv + pp));
    }
    i64 k = e.getCurrentTime();
    e.setMeasurement(a, w, k + 1);
    o.add(e.getEstimatedState(k + 1));
  }
  Part * clone() override
  {
    Arm g;
    return new PTilt(*this);
  }
};

struct PLipm : Part
{
  so::LipmDcmEstimator e;
  PLipm(u64 seed) : Part(seed), e(0.005, 3., 1e-3, 1e-2, 5e-2, Eigen::Vector2d(0.03, (seed & 4) ? -1. : 0.05)) {}
  void step(i64 i, Out & o) override
  {
    Eigen::Vector2d d = rvec(at(i, 1), 2), z = rvec(at(i, 2), 2);
    double yaw = rvec(at(i, 3), 1)[0];
    Arm g;
    if(i % 7 == 3) e.resetWithMeasurements(d, z, yaw, true);
    if(i % 5 == 2) e.setSamplingTime(0.004 + 0.001 * double(i % 3));
    if(i % 6 == 1) e.setBias(d * 0.1);
    if(i % 6 == 4) e.setBias(d * 0.1, z.cwiseAbs());
    if(i % 8 == 5) e.setUnbiasedDCM(z), e.setBiasDriftPerSecond(1e-3 * double(1 + i % 4));
    if(i % 9 == 7) e.setLipmNaturalFrequency(2.5 + 0.1 * double(i % 5)), e.setZmpMeasureErrorStd(1e-2 * double(1 + i % 2));
    if(i % 9 == 4) e.setDcmMeasureErrorStd(2e-2), e.setBiasLimit(Eigen::Vector2d(0.02, 0.05));
    if(i % 2)
      e.setInputs(d, z, yaw);
    else
      e.setInputs(d, z, so::Matrix3(rquat(at(i, 4)).toRotationMatrix()));
    e.update();
    o.add(e.getUnbiasedDCM());
    o.add(e.getBias());
    o.add(e.getLocalBias());
  }
  Part * clone() override
  {
    Arm g;
    return new PLipm(*this);
  }
};
struct PUnidim : Part
{
  so::UnidimLipmDcmEstimator e;
  PUnidim(u64 seed) : Part(seed), e(0.005, 3.)
  {
    Arm g;
    e.setUnbiasedDCM(0.1);
  }
  void step(i64 i, Out & o) override
  {
    double d = rvec(at(i, 1), 1)[0], z = rvec(at(i, 2), 1)[0];
    Arm g;
    if(i % 5 == 2) e.setBiasDriftPerSecond(0.001 * double(1 + i % 3));
    if(i % 6 == 1) e.setBias(d * 0.1);
    if(i % 6 == 4) e.setBias(d * 0.1, 0.02);
    if(i % 8 == 5) e.setUnbiasedDCM(z), e.setSamplingTime(0.004 + 0.001 * double(i % 3));
    if(i % 9 == 7) e.setLipmNaturalFrequency(2.5 + 0.1 * double(i % 5)), e.setZmpMeasureErrorStd(1e-2), e.setDcmMeasureErrorStd(2e-2);
    if(i % 11 == 8) e.resetWithInputs(d, z, i % 2);
    e.setInputs(d, z);
    o.add(e.update());
    o.add(e.getUnbiasedDCM());
    o.add(e.getBias());
  }
  Part * clone() override
  {
    Arm g;
    return new PUnidim(*this);
  }
};

struct PSimulator : Part
{
  so::IMUDynamicalSystem fn;
  so::DynamicalSystemSimulator sm;
  PSimulator(u64 seed) : Part(seed)
  {
    Arm g;
    fn.setSamplingPeriod(0.01);
    sm.setDynamicsFunctor(&fn);
    sm.setState(rvec(at(-1, 1), 18, 0.5), 0);
    sm.setInput(rvec(at(-1, 2), 6), 0);
  }
  PSimulator(const PSimulator & o) : Part(o), fn(o.fn), sm(o.sm)
  {
    sm.setDynamicsFunctor(&fn);
  }
  void step(i64 i, Out & o) override
  {
    Vec u = rvec(at(i, 2), 6);
    Arm g;
    sm.setInput(u, sm.getCurrentTime());
    sm.simulateDynamics();
    o.add(sm.getCurrentState());
    o.add(sm.getMeasurement(sm.getCurrentTime() - 1));
  }
  Part * clone() override
  {
    Arm g;
    return new PSimulator(*this);
  }
};

struct PArray : Part
{
  so::IndexedVectorArray a;
  std::string file;
  PArray(u64 seed) : Part(seed)
  {
    static std::atomic<int> n{0};
    Disarm dd;
    file = io::scratch() + "/arr" + std::to_string(n++);
  }
  PArray(const PArray & o) : Part(o), a(o.a), file(o.file + "c") {}
  void step(i64 i, Out & o) override
  {
    Vec v = rvec(at(i, 1), 1 + i % 3);
    Arm g;
    if(i % 4 == 3 && a.size() > 1) a.popFront();
    a.pushBack(v);
    if(i % 5 == 4)
    {
      a.writeInFile(file, false, false);
      so::IndexedVectorArray b;
      b.readVectorsFromFile(file);
      o.add(u64(b.size()));
      for(auto k = b.getFirstIndex(); b.size() && k < b.getNextIndex(); ++k) o.add(b[k]);
    }
    o.add(u64(a.getFirstIndex()));
    o.add(u64(a.size()));
    o.add(a.back());
  }
  Part * clone() override
  {
    Arm g;
    return new PArray(*this);
  }
};

struct PLogger : Part
{
  so::tools::Logger l;
  std::string dir, nm;
  double d = 0;
  so::Vector3 v;
  int n = 0;
  PLogger(u64 seed) : Part(seed)
  {
    static std::atomic<int> id{0};
    dir = io::scratch();
    nm = "log" + std::to_string(id++);
    v.setZero();
    Arm g;
    l.setPath(dir);
    l.record(&d, nm + "d");
    l.record(&v, nm + "v");
    l.record(&n, nm + "n");
  }
  void step(i64 i, Out & o) override
  {
    d = rvec(at(i, 1), 1)[0];
    v = v3(i, 2, 1);
    n = int(at(i, 3) % 1000);
    Arm g;
    l.push();
    if(i % 3 == 2) l.save(true, i > 3);
    for(const void * p : {(const void *)&d, (const void *)&v, (const void *)&n})
    {
      const so::IndexedMatrixArray & r = l.getRecord(p);
      o.add(u64(r.getFirstIndex()));
      o.add(u64(r.size()));
      if(r.size()) o.add(r.back());
    }
    if(i % 3 == 2)
    {
      so::IndexedVectorArray b;
      b.readVectorsFromFile(dir + "/" + nm + "v");
      o.add(u64(b.size()));
      if(b.size()) o.add(b.back());
    }
  }
};

// attitude filters on top of the IMU systems
template<typename F, int NS, int NM>
struct PImu : Part
{
  F fn;
  so::ExtendedKalmanFilter f;
  Vec dx;
  PImu(u64 seed) : Part(seed), f(NS, NM, 6, false)
  {
    dx = Vec::Constant(NS, 1e-6);
    Arm g;
    fn.setSamplingPeriod(0.01);
    f.setFunctor(&fn);
    f.setState(rvec(at(-1, 1), NS, 0.3), 0);
    f.setStateCovariance(Mat::Identity(NS, NS) * 0.1);
    f.setQ(Mat::Identity(NS, NS) * 1e-3);
    f.setR(Mat::Identity(NM, NM) * 1e-2);
  }
  PImu(const PImu & o) : Part(o), fn(o.fn), f(o.f), dx(o.dx)
  {
    f.setFunctor(&fn);
  }
  void step(i64 i, Out & o) override
  {
    Vec y = rvec(at(i, 1), NM, 2.), u = rvec(at(i, 2), 6, 0.5), u2 = rvec(at(i + 1, 2), 6, 0.5);
    Arm g;
    i64 k = f.getCurrentTime();
    f.setInput(u, k);
    f.setInput(u2, k + 1);
    f.setMeasurement(y, k + 1);
    f.setA(f.getAMatrixFD(dx));
    f.setC(f.getCMatrixFD(dx));
    Vec x = f.getEstimatedState(k + 1);
    o.add(x);
  }
  Part * clone() override
  {
    Arm g;
    return new PImu(*this);
  }
};
struct PMult : Part
{
  so::IMUMltpctiveDynamicalSystem fn;
  so::ExtendedKalmanFilter f;
  PMult(u64 seed) : Part(seed), f(19, 18, 6, 6, 6, false, true)
  {
    Vec x = rvec(at(-1, 1), 19, 0.3);
    Eigen::Quaterniond q = rquat(at(-1, 2));
    x.segment<4>(so::kine::indexes<so::kine::quaternion>::ori) = q.coeffs();
    Arm g;
    fn.setSamplingPeriod(0.01);
    f.setFunctor(&fn);
    f.setStateArithmetics(&fn);
    f.setState(x, 0);
    f.setStateCovariance(Mat::Identity(18, 18) * 0.1);
    f.setQ(Mat::Identity(18, 18) * 1e-3);
    f.setR(Mat::Identity(6, 6) * 1e-2);
  }
  PMult(const PMult & o) : Part(o), fn(o.fn), f(o.f)
  {
    f.setFunctor(&fn);
    f.setStateArithmetics(&fn);
  }
  void step(i64 i, Out & o) override
  {
    Vec y = rvec(at(i, 1), 6, 2.), u = rvec(at(i, 2), 6, 0.5), u2 = rvec(at(i + 1, 2), 6, 0.5);
    Arm g;
    i64 k = f.getCurrentTime();
    f.setInput(u, k);
    f.setInput(u2, k + 1);
    f.setMeasurement(y, k + 1);
    f.setA(fn.getAMatrix(f.getCurrentEstimatedState()));
    f.updateStatePrediction();
    f.setC(fn.getCMatrix(f.getLastPrediction()));
    o.add(f.getEstimatedState(k + 1));
    o.add(f.getStateCovariance());
  }
  Part * clone() override
  {
    Arm g;
    return new PMult(*this);
  }
};

struct PModelBase : Part
{
  std::unique_ptr<so::flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU> e;
  unsigned nc;
  PModelBase(u64 seed) : Part(seed), nc(1 + unsigned(seed % 2))
  {
    Arm g;
    e.reset(new so::flexibilityEstimation::ModelBaseEKFFlexEstimatorIMU(0.005));
    e->setContactModel((seed & 64) ? 2 : 1);
    e->setRobotMass(56.8);
    if(seed & 4) e->setWithUnmodeledForces(true);
    if(seed & 8) e->setWithForcesMeasurements(true);
    if(seed & 16) e->setWithAbsolutePos(true);
    if(seed & 32) e->setWithComBias(true);
    e->setContactsNumber(nc);
    Vec x = Vec::Zero(35);
    x.head(3) = v3(-1, 1, 0.01);
    e->setFlexibilityGuess(x);
  }
  void step(i64 i, Out & o) override
  {
    Vec y = rvec(at(i, 1), e->getMeasurementSize(), 0.1);
    y[2] += 9.8;
    Vec u = Vec::Zero(e->getInputSize());
    // com, its derivatives, inertia, momentum, sensor kinematics, additional forces, then contacts
    u.head<3>() = v3(0, 30, 0.02) + V3(0, 0, 0.8);
    u.segment<6>(9) << 48., 47., 2., 0, 0, 0;
    u.segment<3>(27 < u.size() ? 27 : 0).setZero();
    Vec nz = rvec(at(i, 2), u.size(), 1e-3);
    u += nz;
    Arm g;
    if(i == 0) e->setInput(u);
    e->setMeasurementInput(u);
    e->setMeasurement(y);
    o.add(e->getFlexibilityVector());
    o.add(e->getStateCovariance());
    o.add(e->getForcesAndMoments());
  }
};
struct PFixed : Part
{
  std::unique_ptr<so::flexibilityEstimation::FixedContactEKFFlexEstimatorIMU> e;
  PFixed(u64 seed) : Part(seed)
  {
    Arm g;
    e.reset(new so::flexibilityEstimation::FixedContactEKFFlexEstimatorIMU(0.005));
    unsigned n = 1 + unsigned(seed % 2);
    e->setContactsNumber(n);
    for(unsigned j = 0; j < n; ++j) e->setContactPosition(j, v3(-1, 2 + j, 0.2));
    e->setFlexibilityGuess(rvec(at(-1, 9), 18, 0.01));
  }
  void step(i64 i, Out & o) override
  {
    Vec y = rvec(at(i, 1), 6, 0.1), u = rvec(at(i, 2), 15, 0.05);
    y[2] += 9.8;
    Arm g;
    e->setMeasurement(y);
    e->setMeasurementInput(u);
    o.add(e->getFlexibilityVector());
    o.add(e->getFlexibilityCovariance());
  }
};

struct PKinetics : Part
{
  std::unique_ptr<so::KineticsObserver> e;
  PKinetics(u64 seed) : Part(seed)
  {
    Arm g;
    e.reset(new so::KineticsObserver(2, 2));
    e->setSamplingTime(0.005);
    if(seed & 2) e->setWithUnmodeledWrench(true);
    if(seed & 4) e->setWithGyroBias(true);
    if(seed & 8) e->setWithAccelerationEstimation(true);
    if(seed & 16)
    {
      e->setKinematicsInitCovarianceDefault(Mat::Identity(12, 12) * 1e-3);
      e->setContactInitCovMatDefault(so::Matrix12::Identity() * 1e-3);
      e->setUnmodeledWrenchInitCovMatDefault(so::Matrix6::Identity());
      e->resetStateCovarianceMat();
    }
    e->addContact(place(-1, 3, 0.5));
  }
  so::kine::Kinematics place(i64 i, u64 k, double sc) const
  {
    so::kine::Kinematics z;
    z.position = v3(i, k, sc);
    z.orientation = so::Quaternion(rquat(at(-5, k)));
    return z;
  }
  void step(i64 i, Out & o) override
  {
    Arm g;
    if(i % 7 == 3) e->addContact(place(i, 4, 0.5), (s & 32) ? 1 : -1);
    if(i % 7 == 6) e->removeContact(1);
    so::Vector6 w = rvec(at(i, 5), 6, 5);
    w[2] += 300;
    for(int c : e->getListOfContacts())
    {
      so::kine::Kinematics z = place(-2, 10 + u64(c), 0.5);
      if(c == 0 && !(s & 64))
        e->updateContactWithWrenchSensor(w, z, unsigned(c));
      else
        e->updateContactWithNoSensor(z, unsigned(c));
    }
    if(i % 3 != 1) e->setIMU(v3(i, 6, 0.3) + V3(0, 0, 9.8), v3(i, 7, 0.1), place(-3, 8, 0.2), int(i % 2));
    if(i % 5 == 2) e->setAbsolutePoseSensor(place(i, 12, 0.01));
    if(i % 4 == 1)
      e->setCenterOfMass(v3(i, 9, 0.01));
    else if(i % 4 == 2)
      e->setCenterOfMass(v3(i, 9, 0.01), v3(i, 13, 0.1));
    else if(i % 4 == 3)
      e->setCenterOfMass(v3(i, 9, 0.01), v3(i, 13, 0.1), v3(i, 14, 0.1));
    if(i % 3 == 0)
    {
      so::Vector6 in;
      in << 5 + v3(i, 15, 1).cwiseAbs().array(), v3(i, 16, 0.1);
      e->setInertiaMatrix(in);
      e->setAngularMomentum(v3(i, 17, 0.2));
    }
    else if(i % 3 == 1)
    {
      so::Matrix3 in = so::Matrix3::Identity() * 4;
      in(0, 0) = 5;
      e->setInertiaMatrix(in, so::Matrix3(so::Matrix3::Identity() * 0.01));
      e->setAngularMomentum(v3(i, 17, 0.2), v3(i, 18, 0.1));
    }
    if(i % 4 == 2) e->setAdditionalWrench(v3(i, 19, 3), v3(i, 20, 1));
    if(i % 9 == 4) e->setGyroBias(v3(i, 21, 0.05), 1);
    if(i % 9 == 7) e->setStateUnmodeledWrench(rvec(at(i, 22), 6));
    if(i % 11 == 8) e->resetStateContactsCovMat(), e->resetProcessCovarianceMat();
    if(i % 13 == 9) e->resetInputs();
    o.add(e->update());
    o.add(e->getStateCovarianceMat());
    o.add(e->getUnmodeledWrench());
    o.add(e->getContactWrench(0));
    o.add(e->getContactPosition(0).toVector());
    o.add(e->getKinematicsOf(place(-4, 23, 0.3)).toVector());
    so::kine::Kinematics k = e->getKinematics();
    o.add(k.position());
    o.add(k.linVel());
    if(s & 8) o.add(V3(e->estimateAccelerations().linAcc()));
  }
};
struct PKine : Part
{
  so::kine::Kinematics k;
  so::kine::Kinematics f;
  PKine(u64 seed) : Part(seed)
  {
    Arm g;
    k.setZero();
    f.setZero();
  }
  void more(i64 i, Out & o, const so::kine::Kinematics & b)
  {
    namespace kn = so::kine;
    typedef kn::Kinematics K;
    so::Matrix3 R = b.orientation.toMatrix3(), R2 = k.orientation.toMatrix3();
    V3 p = b.position(), w = b.angVel();
    // an estimate which follows partial information
    K n;
    if(i % 4 != 3) n.position = p;
    if(i % 3 != 2) n.orientation = R;
    if(i % 2) n.linVel = b.linVel();
    if(i % 5 > 2) n.angVel = w;
    f.update(n, 0.01, K::Flags::all);
    o.add(f.toVector());
    so::Vector6 v6;
    v6 << p, w * 3;
    so::Matrix4 H = kn::vector6ToHomogeneousMatrix(v6);
    o.add(H);
    o.add(kn::homogeneousMatrixToVector6(H));
    o.add(kn::invertHomoMatrix(H));
    so::Vector6 u6 = v6;
    u6.array() += 0.01;
    o.add(kn::derivatePoseThetaUFD(v6, u6, 0.01));
    o.add(kn::derivateHomogeneousMatrixFD(H, kn::vector6ToHomogeneousMatrix(u6), 0.01));
    o.add(kn::regulateOrientationVector(w * 5));
    o.add(kn::rollPitchYawToRotationMatrix(p));
    o.add(kn::rollPitchYawToQuaternion(p).coeffs());
    o.add(kn::quaternionToRotationVector(b.orientation.toQuaternion()));
    o.add(kn::orthogonalizeRotationMatrix(so::Matrix3(R + 1e-3 * R2)));
    V3 a = p.normalized(), c = w.normalized();
    o.add(kn::rotationMatrixToYaw(R));
    o.add(kn::rotationMatrixToYawAxisAgnostic(R));
    o.add(kn::rotationMatrixToAngle(R, a, c));
    o.add(kn::getInvariantHorizontalVector(R));
    o.add(kn::getInvariantOrthogonalVector(R, a));
    o.add(kn::mergeTiltWithYaw(a, R, V3::UnitX()));
    o.add(kn::mergeTiltWithYawAxisAgnostic(a, R));
    o.add(double(kn::isRotationMatrix(R, 1e-9)) + 2 * double(kn::isPureYaw(R)));
    kn::Orientation z(R);
    z.integrate(w * 0.1);
    o.add(z.toVector4());
    o.add(z.differentiate(k.orientation));
    o.add(kn::Orientation(a).toRollPitchYaw());
    Vec st(Vec::Zero(18));
    st << p, w, b.linVel(), c, b.linAcc(), a;
    o.add(kn::invertState(st));
    so::IndexedVectorArray po;
    for(int j = 0; j < 4; ++j) po.setValue(v6 + so::Vector6::Constant(0.01 * j * j), i + j);
    so::IndexedVectorArray tr = kn::reconstructStateTrajectory(po, 0.01);
    for(int j = 0; j < 4; ++j) o.add(tr[i + j]);
    o.add(so::tools::stringToMatrix(so::tools::matrixToString(R), 3, 3));
    o.add(so::tools::stringToVector(so::tools::vectorToString(st)));
  }
  void step(i64 i, Out & o) override
  {
    so::kine::Kinematics b;
    V3 p = v3(i, 1, 1), v = v3(i, 2, 1), w = v3(i, 3, 1), a = v3(i, 4, 1), t = v3(i, 5, 1);
    Eigen::Quaterniond q = rquat(at(i, 6));
    Arm g;
    b.position = p;
    b.orientation = so::Quaternion(q);
    b.linVel = v;
    b.angVel = w;
    b.linAcc = a;
    b.angAcc = t;
    if(i % 3 == 0)
      k = b;
    else
      k = k * b;
    if(i % 2) k.integrate(0.01);
    so::kine::Kinematics inv = k.getInverse();
    o.add(k.toVector());
    o.add(inv.toVector());
    o.add(so::kine::rotationMatrixToRotationVector(k.orientation.toMatrix3()));
    o.add(so::kine::rotationMatrixToRollPitchYaw(k.orientation.toMatrix3()));
    o.add(so::kine::skewSymmetric2(w));
    o.add(so::kine::mergeRoll1Pitch1WithYaw2AxisAgnostic(k.orientation.toMatrix3(), so::Matrix3(q.toRotationMatrix())));
    more(i, o, b);
  }
  Part * clone() override
  {
    Arm g;
    return new PKine(*this);
  }
};

struct PSensor : Part
{
  so::AccelerometerGyrometer ag;
  so::AccelerometerGyrometerMagnetometer agm;
  PSensor(u64 seed) : Part(seed) {}
  void step(i64 i, Out & o) override
  {
    Vec x = rvec(at(i, 1), 10), z = rvec(at(i, 2), 10);
    x.head<4>() = rquat(at(i, 3)).coeffs();
    z.head<4>() = rquat(at(i, 4)).coeffs();
    Arm g;
    ag.setState(x, i);
    agm.setState(z, i);
    o.add(ag.getMeasurements());
    o.add(agm.getMeasurements());
  }
  Part * clone() override
  {
    Arm g;
    return new PSensor(*this);
  }
};

struct PPendulum : Part
{
  so::BidimElasticInvPendulum f;
  Vec x;
  PPendulum(u64 seed) : Part(seed)
  {
    x = rvec(at(-1, 1), 4, 0.05);
    Arm g;
    f.setSamplingPeriod(0.005);
    f.setHeight(1.8);
    f.setMass(80);
    f.setElasticity(40000);
  }
  void step(i64 i, Out & o) override
  {
    Vec u = rvec(at(i, 1), f.getInputSize(), 0.1);
    Arm g;
    x = f.stateDynamics(x, u, i);
    o.add(x);
    o.add(f.measureDynamics(x, u, i));
  }
  Part * clone() override
  {
    Arm g;
    return new PPendulum(*this);
  }
};

struct PElastic : Part
{
  std::unique_ptr<so::flexibilityEstimation::IMUElasticLocalFrameDynamicalSystem> f;
  Vec x;
  PElastic(u64 seed) : Part(seed)
  {
    x = rvec(at(-1, 1), 35, 0.01);
    Arm g;
    f.reset(new so::flexibilityEstimation::IMUElasticLocalFrameDynamicalSystem(0.005));
    f->setContactModel((seed & 8) ? 2 : 1);
    f->setRobotMass(56.8);
    f->setContactsNumber(1 + unsigned(seed % 2));
    if(seed & 4) f->setWithForceMeasurements(true);
  }
  void step(i64 i, Out & o) override
  {
    Vec u = rvec(at(i, 1), f->getInputSize(), 1e-2);
    u[2] += 0.8;
    u.segment<3>(9) += V3(48, 47, 2);
    Arm g;
    Vec n = f->stateDynamics(x, u, i);
    o.add(n);
    o.add(f->measureDynamics(x, u, i));
    if(i % 3 == 1)
    {
      o.add(f->computeAccelerations(x, u));
      o.add(f->getForcesAndMoments(x, u));
      o.add(f->getMomentaDotFromForces(x, u));
      o.add(f->getMomentaDotFromKinematics(x, u));
      o.add(f->getForcesAndMoments());
    }
    if(i % 4 == 2)
    {
      o.add(f->stateDynamicsJacobian());
      o.add(f->measureDynamicsJacobian());
    }
    if(i % 4 == 3)
    {
      f->setKfe(so::Matrix3(so::Matrix3::Identity() * (30000 + 1000 * double(s % 7))));
      f->setKtv(so::Matrix3(so::Matrix3::Identity() * (10 + double(s % 5))));
      f->setWithComBias(s & 16);
      f->setWithAbsolutePosition(s & 32);
      o.add(f->getKfe());
    }
    Disarm d;
    x = rvec(at(i, 3), 35, 0.01);
  }
};

Part * make(i64 kind, u64 seed)
{
  Arm g;
  switch(((kind % 17) + 17) % 17)
  {
    case 0: return new PLinear(seed);
    case 1: return new PExtended(seed);
    case 2: return new PTilt(seed);
    case 3: return new PLipm(seed);
    case 4: return new PUnidim(seed);
    case 5: return new PSimulator(seed);
    case 6: return new PArray(seed);
    case 7: return new PLogger(seed);
    case 8: return new PImu<so::IMUDynamicalSystem, 18, 6>(seed);
    case 9: return new PMult(seed);
    case 10: return new PModelBase(seed);
    case 11: return new PFixed(seed);
    case 12: return new PKine(seed);
    case 13: return new PSensor(seed);
    case 14: return new PPendulum(seed);
    case 15: return new PElastic(seed);
    default: return new PKinetics(seed);
  }
}
const char * kindName(i64 kind)
{
  static const char * n[] = {"linear filter", "extended filter", "tilt estimator", "DCM estimator", "unidimensional DCM estimator", "simulator",
                             "time-indexed array", "logger", "IMU attitude filter", "multiplicative attitude filter", "model-based flexibility estimator",
                             "fixed contact flexibility estimator", "kinematics", "sensors", "pendulum system", "elastic system", "kinetics observer"};
  return n[((kind % 17) + 17) % 17];
}

typedef std::vector<u64> Script;
void oneStep(Part & p, i64 i, Script & t)
{
  Out o;
  try
  {
    p.step(i, o);
    t.push_back(o.h);
  }
  catch(const AssertFailure & a)
  {
    u64 h = 99;
    for(char ch : a.expr) h = mix64(h ^ u64((unsigned char)ch));
    t.push_back(h);
  }
  catch(const std::exception & e)
  {
    t.push_back(0xbad);
  }
}
// the transcript of a participant alone in a process where nothing else ran
Script solo(i64 kind, u64 seed, i64 steps, i64 fillPattern)
{
  int fd[2];
  if(pipe(fd)) throw std::runtime_error("pipe");
  pid_t pid = fork();
  if(pid == 0)
  {
    close(fd[0]);
    Script t;
    alloc::setFill(u64(fillPattern));
    try
    {
      std::unique_ptr<Part> p(make(kind, seed));
      for(i64 i = 0; i < steps; ++i) oneStep(*p, i, t);
    }
    catch(...)
    {
      t.push_back(0xdead);
    }
    size_t n = t.size() * sizeof(u64), w = 0;
    while(w < n)
    {
      ssize_t r = ::write(fd[1], reinterpret_cast<char *>(t.data()) + w, n - w);
      if(r <= 0) break;
      w += size_t(r);
    }
    _exit(0);
  }
  close(fd[1]);
  Script t;
  u64 v;
  size_t got = 0;
  while(true)
  {
    ssize_t r = ::read(fd[0], reinterpret_cast<char *>(&v) + got, sizeof v - got);
    if(r <= 0) break;
    got += size_t(r);
    if(got == sizeof v)
    {
      t.push_back(v);
      got = 0;
    }
  }
  close(fd[0]);
  int st;
  waitpid(pid, &st, 0);
  return t;
}
void compare(Ctx & c, const Script & got, const Script & want, i64 kind, const char * how)
{
  for(size_t i = 0; i < got.size(); ++i)
  {
    c.check(i < want.size(), "isolation-length", "the %s alone stops after %zu steps, %s it goes on", kindName(kind), want.size(), how);
    c.check(got[i] == want[i], "isolation", "the %s gives another result at its step %zu %s than alone", kindName(kind), i, how);
    c.fold(got[i]);
  }
}

// ------------------------------------------------------------------ threads
Case genThreads(Rng & r, bool th)
{
  Case k;
  i64 n = r.range(2, th ? 5 : 4);
  k.cfg["n"] = n;
  bool same = r.chance(0.4);
  i64 kind = r.range(0, 16);
  for(i64 i = 0; i < n; ++i)
  {
    k.cfg["kind" + std::to_string(i)] = same ? kind : r.range(0, 16);
    k.cfg["seed" + std::to_string(i)] = r.seed();
    k.cfg["len" + std::to_string(i)] = r.range(2, 6);
  }
  k.cfg["fill"] = r.range(1, 4);
  i64 slices = r.range(4, th ? 200 : 80);
  double big = r.uni(1, 4);
  if(r.chance(0.35)) // preempted all along
  {
    k.cfg["cycle"] = r.range(200, th ? 5000 : 1500);
    big = r.uni(2.5, 5);
  }
  for(i64 i = 0; i < slices; ++i) k.add("slice", {r.range(0, n - 1), i64(std::pow(10., r.uni(0, big)))});
  return k;
}
void execThreads(const Case & k, Ctx & c)
{
  i64 n = std::max<i64>(1, std::min<i64>(6, k.c("n", 2)));
  std::vector<Script> want, got((size_t(n)));
  std::vector<i64> len;
  for(i64 i = 0; i < n; ++i)
  {
    std::string s = std::to_string(i);
    len.push_back(std::max<i64>(1, std::min<i64>(12, std::llabs(k.c("len" + s, 2)))));
    want.push_back(solo(k.c("kind" + s), u64(k.c("seed" + s)), len.back(), k.c("fill") + 1));
  }
  alloc::setFill(u64(k.c("fill")));
  std::vector<sched::Slice> sl;
  for(auto & o : k.ops)
    if(o.n == "slice") sl.push_back({int(o.arg(0)), std::max<i64>(1, o.arg(1))});
  std::vector<std::function<void()>> bodies;
  for(i64 i = 0; i < n; ++i)
    bodies.push_back([&, i]() {
      std::string s = std::to_string(i);
      try
      {
        std::unique_ptr<Part> p(make(k.c("kind" + s), u64(k.c("seed" + s))));
        for(i64 j = 0; j < len[size_t(i)]; ++j)
        {
          oneStep(*p, j, got[size_t(i)]);
          sched::yieldPoint();
        }
      }
      catch(...)
      {
        got[size_t(i)].push_back(0xdead);
      }
    });
  u64 ih = 0;
  i64 sw = sched::run(bodies, sl, ih, std::min<i64>(20000, k.c("cycle", 0)));
  if(sw > 0) c.fault("preemption", u64(sw));
  c.fault("uninitialised_memory_pattern");
  c.state(ih);
  for(i64 i = 0; i < n; ++i)
  {
    compare(c, got[size_t(i)], want[size_t(i)], k.c("kind" + std::to_string(i)), "interleaved with other threads");
    c.check(got[size_t(i)].size() == want[size_t(i)].size(), "isolation-length", "the %s stops at another step than alone", kindName(k.c("kind" + std::to_string(i))));
  }
  c.nontrivial = sw > 1;
}

// ------------------------------------------------------------------ one thread: creation, copy, destruction
struct Live
{
  std::unique_ptr<Part> p;
  i64 kind, done;
  u64 seed;
  Script got;
};
Case genMono(Rng & r, bool th)
{
  Case k;
  k.cfg["fill"] = r.range(1, 4);
  bool same = r.chance(0.4);
  i64 kind = r.range(0, 16);
  i64 ops = r.range(6, th ? 60 : 30);
  for(i64 i = 0; i < ops; ++i)
  {
    double x = r.uni();
    if(i == 0 || x < 0.15)
      k.add("new", {same ? kind : r.range(0, 16), r.chance(0.3) ? 4242 : r.seed()});
    else if(x < 0.75)
      k.add("step", {r.range(0, 7)});
    else if(x < 0.87)
      k.add("copy", {r.range(0, 7)});
    else if(x < 0.95)
      k.add("destroy", {r.range(0, 7)});
    else
      k.add("fill", {r.range(1, 4)});
  }
  return k;
}
void execMono(const Case & k, Ctx & c)
{
  alloc::setFill(u64(k.c("fill")));
  std::vector<Live> live, dead;
  i64 copies = 0, gone = 0;
  for(size_t q = 0; q < k.ops.size(); ++q)
  {
    const Op & o = k.ops[q];
    c.opIndex = int(q);
    if(o.n == "new")
    {
      if(live.size() >= 6) continue;
      Live l;
      l.kind = o.arg(0);
      l.seed = u64(o.arg(1));
      l.done = 0;
      l.p.reset(make(l.kind, l.seed));
      live.push_back(std::move(l));
    }
    else if(live.empty())
      continue;
    else
    {
      Live & l = live[size_t(u64(o.arg(0)) % live.size())];
      if(o.n == "step")
      {
        if(l.done < 12) oneStep(*l.p, l.done++, l.got);
      }
      else if(o.n == "copy")
      {
        if(live.size() >= 6) continue;
        Live m;
        m.p.reset(l.p->clone());
        if(!m.p) continue;
        m.kind = l.kind;
        m.seed = l.seed;
        m.done = l.done;
        m.got = l.got;
        ++copies;
        live.push_back(std::move(m));
        c.fault("copied_object");
      }
      else if(o.n == "destroy")
      {
        Live m = std::move(l);
        live.erase(live.begin() + std::ptrdiff_t(u64(o.arg(0)) % live.size()));
        {
          Arm g;
          m.p.reset();
        }
        ++gone;
        dead.push_back(std::move(m));
        c.fault("destroyed_object");
      }
      else if(o.n == "fill")
        alloc::setFill(u64(o.arg(0)));
    }
  }
  for(auto & l : live)
  {
    // one more step each, so that copies of destroyed objects are used
    if(l.done < 12) oneStep(*l.p, l.done++, l.got);
    dead.push_back(std::move(l));
  }
  std::map<std::pair<i64, u64>, Script> memo;
  i64 total = 0;
  for(auto & d : dead)
  {
    auto key = std::make_pair(d.kind, d.seed);
    auto it = memo.find(key);
    if(it == memo.end() || i64(it->second.size()) < d.done) it = memo.insert_or_assign(key, solo(d.kind, d.seed, 12, k.c("fill") + 2)).first;
    compare(c, d.got, it->second, d.kind, "among other objects");
    total += d.done;
  }
  c.state(mix64(u64(dead.size()), u64(total)) ^ u64(copies * 64 + gone));
  c.nontrivial = dead.size() > 1 && total > 2;
}

Reg r1({"C10", "threads", 12000, 60000,
        "2 to 5 objects of 17 kinds (filters, estimators, systems, containers, logger, kinematics) used by one thread each, preempted at instrumented points by a seeded schedule",
        "all library classes listed", "thread scheduler, memory content; std::random_device", genThreads, execThreads});
Reg r2({"C10", "lifetimes", 12000, 60000,
        "objects of 17 kinds created, copied, used and destroyed in any order in one thread, with several contents of fresh memory",
        "all library classes listed", "memory content; std::random_device", genMono, execMono});
} // namespace
} // namespace sim
