// C11 simulated trajectories vs. the recursion, C14 sensors and noise
#include "core.hpp"

#include <memory>
#include <set>
#include <state-observation/dynamical-system/dynamical-system-simulator.hpp>
#include <state-observation/noise/gaussian-white-noise.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer-magnetometer.hpp>
#include <state-observation/sensors-simulation/accelerometer-gyrometer.hpp>
#include <state-observation/tools/probability-law-simulation.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
struct Boom
{
};
struct Sys : public so::DynamicalSystemFunctorBase
{
  i64 n, m, p;
  bool noisy; // depends on the number of evaluations: simulated values must nevertheless be stable
  Mat A, B, C, D;
  i64 throwAt = 0, calls = 0;
  Sys(u64 seed, i64 n_, i64 m_, i64 p_, bool noisy_) : n(n_), m(m_), p(p_), noisy(noisy_)
  {
    A = rstable(mix64(seed, 1), n, 0.9);
    B = rmat(mix64(seed, 2), n, p, 1.);
    C = rmat(mix64(seed, 3), m, n, 1.);
    D = rmat(mix64(seed, 4), m, p, 1.);
  }
  Vec f(const Vec & x, const Vec & u, i64 k) const
  {
    return A * x + B * u + Vec::Constant(n, 0.1 * std::sin(0.7 * double(k % 1021)));
  }
  Vec h(const Vec & x, const Vec & u, i64 k) const
  {
    return C * x + D * u + Vec::Constant(m, 0.1 * std::cos(0.3 * double(k % 1021)));
  }
  void hit()
  {
    ++calls;
    if(throwAt > 0 && --throwAt == 0) throw Boom();
  }
  so::Vector stateDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k) override
  {
    Disarm d;
    hit();
    Vec r = f(x, u, i64(k));
    if(noisy) r[0] += 1e-3 * double(calls);
    return r;
  }
  so::Vector measureDynamics(const so::Vector & x, const so::Vector & u, so::TimeIndex k) override
  {
    Disarm d;
    hit();
    Vec r = h(x, u, i64(k));
    if(noisy) r[0] += 1e-3 * double(calls);
    return r;
  }
  void reset() override {}
  so::Index getStateSize() const override
  {
    return n;
  }
  so::Index getInputSize() const override
  {
    return p;
  }
  so::Index getMeasurementSize() const override
  {
    return m;
  }
};
template<typename F>
bool refused(F f)
{
  try
  {
    f();
  }
  catch(const AssertFailure &)
  {
    return true;
  }
  return false;
}
struct SimRig
{
  Ctx & c;
  const Case & k;
  std::unique_ptr<Sys> sys;
  so::DynamicalSystemSimulator sim;
  // model
  i64 first = 0;
  std::vector<Vec> x;             // x[i] at first+i
  std::map<i64, Vec> y;           // simulated (or known) measurements
  std::map<i64, Vec> u;
  std::set<i64> loose; // times whose measurement may or may not have been evaluated by a step that failed
  bool noisy;
  std::map<i64, Vec> seenX, seenY; // noisy systems: what was reported must not change
  i64 steps = 0, queries = 0;
  SimRig(Ctx & cc, const Case & kk) : c(cc), k(kk)
  {
    noisy = k.c("noisy");
    sys.reset(new Sys(u64(k.c("sys")), k.c("n", 2), k.c("m", 1), k.c("p", 1), noisy));
    LIB(sim.setDynamicsFunctor(sys.get()));
  }
  i64 last() const
  {
    return first + i64(x.size()) - 1;
  }
  bool hasU(i64 t) const
  {
    return !u.empty() && u.begin()->first <= t;
  }
  Vec U(i64 t) const
  {
    auto i = u.upper_bound(t);
    --i;
    return i->second;
  }
  void advance(i64 to) // model: x known up to 'to'
  {
    while(last() < to)
    {
      i64 t = last();
      for(i64 q = first; q <= t; ++q)
        if(!y.count(q) || (q == t)) measure(q);
      x.push_back(sys->f(x.back(), U(t), t));
      ++steps;
    }
  }
  bool yStarted = false;
  i64 yFirst = 0;
  void measure(i64 q)
  {
    // measurements are simulated along with the states, starting at the first simulated one
    if(!yStarted && q < last()) return;
    if(!yStarted)
    {
      yStarted = true;
      yFirst = q;
    }
    if(!hasU(q)) return;
    y[q] = sys->h(x[size_t(q - first)], U(q), q);
  }
  void same(const Vec & g, const Vec & w, std::map<i64, Vec> & seen, i64 t, const char * key)
  {
    if(noisy)
    {
      auto i = seen.find(t);
      if(i == seen.end())
        seen[t] = g;
      else
        c.close(g, i->second, 0., key, "value reported earlier for the same time");
      return;
    }
    double s = std::max(1., w.cwiseAbs().maxCoeff());
    c.close(g / s, w / s, 1e-9, key, "simulated value");
    c.fold(g);
  }
  void checkAll()
  {
    if(x.empty()) return;
    c.check(i64(LIB(sim.getCurrentTime())) == last(), "sim-time", "current time %lld, expected %lld", (long long)LIB(sim.getCurrentTime()),
            (long long)last());
    same(LIB(Vec(sim.getCurrentState())), x.back(), seenX, last(), "sim-state");
    c.state(mix64(mix64(u64(x.size()), u64(y.size())), u64(u.size()) + 1000 * u64(first + 100)));
  }
  template<typename F>
  bool tryLib(F f, bool & threw)
  {
    threw = false;
    try
    {
      f();
    }
    catch(const Boom &)
    {
      threw = true;
      c.fault("system_function_throws");
    }
    sys->throwAt = 0;
    return !threw;
  }
  void apply(const Op & o)
  {
    const std::string & n = o.n;
    if(n == "state")
    {
      Vec v = rvec(u64(o.arg(0)), sys->n, 2.);
      i64 t;
      if(x.empty())
        t = o.arg(1);
      else
        t = first + std::llabs(o.arg(1)) % (i64(x.size()) + 1);
      LIB(sim.setState(v, t));
      if(x.empty())
      {
        first = t;
        yStarted = false;
        y.clear();
      }
      x.resize(size_t(t - first));
      x.push_back(v);
      for(auto i = y.lower_bound(t); i != y.end();) i = y.erase(i);
      if(yStarted && t <= yFirst)
      {
        yStarted = false;
        y.clear();
      }
      for(auto * s : {&seenX, &seenY})
        for(auto i = s->lower_bound(t); i != s->end();) i = s->erase(i);
      seenX[t] = v;
      loose.erase(loose.lower_bound(t), loose.end());
    }
    else if(n == "badstate")
    {
      if(x.empty()) return;
      i64 t = (o.arg(1) & 1) ? last() + 2 + std::llabs(o.arg(1)) % 3 : first - 1 - std::llabs(o.arg(1)) % 3;
      c.check(refused([&]() { LIB(sim.setState(rvec(1, sys->n), t)); }), "sim-refusal", "a state at time %lld was accepted, states known [%lld,%lld]",
              (long long)t, (long long)first, (long long)last());
      c.fault("refused_call");
    }
    else if(n == "input")
    {
      Vec v = rvec(u64(o.arg(0)), sys->p, 2.);
      i64 t = o.arg(1) + (x.empty() ? 0 : last());
      LIB(sim.setInput(v, t));
      u[t] = v;
    }
    else if(n == "getinput")
    {
      i64 t = o.arg(0) + (x.empty() ? 0 : last());
      if(!hasU(t))
      {
        c.check(refused([&]() { (void)LIB(Vec(sim.getInput(t))); }), "sim-refusal", "an input that was never set was provided");
        c.fault("refused_call");
        return;
      }
      c.close(LIB(Vec(sim.getInput(t))), U(t), 0., "sim-input", "input");
    }
    else
    {
      if(x.empty() || !hasU(last()) || (yStarted && !hasU(yFirst))) return;
      bool threw;
      if(n == "step" || n == "to" || n == "getx" || n == "gety")
      {
        i64 want = last();
        i64 fail = o.arg(1);
        i64 t = last() + o.arg(0);
        if(n == "step") want = last() + 1;
        if(n == "to") want = std::max(want, t);
        if(n == "getx")
        {
          if(t < first) return;
          want = std::max(want, t);
        }
        if(n == "gety")
        {
          if(t < first) return;
          if(yStarted ? t < yFirst : t < last()) return; // never simulated: the state was set afterwards
          if(!y.count(t)) want = std::max(last(), t) + 1;
        }
        sys->throwAt = fail;
        Vec g;
        tryLib(
            [&]() {
              if(n == "step")
                LIB(sim.simulateDynamics());
              else if(n == "to")
                LIB(sim.simulateDynamicsTo(t));
              else if(n == "getx")
                g = LIB(Vec(sim.getState(t)));
              else
                g = LIB(Vec(sim.getMeasurement(t)));
            },
            threw);
        if(threw)
        {
          // some of the steps may have completed; what is there must be right
          i64 now = i64(LIB(sim.getCurrentTime()));
          c.check(now >= last() && now <= want, "sim-time", "after a failure the time is %lld, was %lld", (long long)now, (long long)last());
          advance(now);
          // the measurements of states that were set may have been completed before the failure
          for(i64 q = first; q < now; ++q)
            if(!y.count(q)) loose.insert(q);
          return checkAll();
        }
        if(n == "gety" && loose.count(t) && !y.count(t))
        {
          i64 now = i64(LIB(sim.getCurrentTime()));
          c.check(now == last() || now == want, "sim-time", "time %lld after asking for the measurement %lld", (long long)now, (long long)t);
          want = now;
        }
        advance(want);
        if(n == "getx") same(g, x[size_t(t - first)], seenX, t, "sim-state");
        if(n == "gety" && y.count(t) && !loose.count(t)) same(g, y[t], seenY, t, "sim-measurement");
        ++queries;
      }
      else if(n == "arrx" || n == "arry")
      {
        i64 len = std::llabs(o.arg(1)) % 6;
        i64 t = last() + o.arg(0);
        if(t < first) t = first;
        so::IndexedVectorArray a;
        if(n == "arry")
        {
          if(yStarted && t < yFirst) t = yFirst;
          if(!yStarted && t < last()) t = last();
          a = LIB(sim.getMeasurementArray(t, so::TimeSize(len)));
          for(i64 q = t; q < t + len; ++q)
            if(!y.count(q))
            {
              if(loose.count(q) && i64(LIB(sim.getCurrentTime())) == last()) continue;
              advance(std::max(last(), q) + 1);
            }
        }
        else
        {
          a = LIB(sim.getStateArray(t, so::TimeSize(len)));
          if(len) advance(std::max(last(), t + len - 1));
        }
        c.check(i64(LIB(a.size())) == len && (len == 0 || i64(LIB(a.getFirstIndex())) == t), "sim-array", "array of %lld elements from %lld, asked %lld from %lld",
                (long long)LIB(a.size()), (long long)LIB(a.getFirstIndex()), (long long)len, (long long)t);
        for(i64 q = t; q < t + len; ++q)
          if(n == "arrx")
            same(LIB(Vec(a[q])), x[size_t(q - first)], seenX, q, "sim-state");
          else if(y.count(q) && !loose.count(q))
            same(LIB(Vec(a[q])), y[q], seenY, q, "sim-measurement");
        ++queries;
      }
      else if(n == "reset")
      {
        LIB(sim.resetDynamics());
        if(o.arg(0) & 1)
        {
          LIB(sim.resetSimulator());
          LIB(sim.setDynamicsFunctor(sys.get()));
        }
        x.clear();
        y.clear();
        u.clear();
        loose.clear();
        seenX.clear();
        seenY.clear();
        yStarted = false;
        c.fault("restart");
      }
    }
    checkAll();
  }
};
Case genC11(Rng & r, bool th)
{
  Case c;
  c.cfg["n"] = r.range(1, 4);
  c.cfg["m"] = r.range(1, 3);
  c.cfg["p"] = r.range(1, 3);
  c.cfg["sys"] = r.seed();
  c.cfg["noisy"] = r.chance(0.2);
  double fail = r.chance(0.5) ? 0 : r.uni(0.05, 0.5), ov = r.chance(0.4) ? 0 : r.uni(0.02, 0.3), over = r.chance(0.5) ? 0 : 1.;
  if(r.chance(0.06)) // large systems
  {
    c.cfg["n"] = r.range(5, 14);
    c.cfg["m"] = r.range(1, 10);
    c.cfg["p"] = r.range(1, 8);
  }
  i64 far = r.chance(0.06) ? (r.chance(0.3) ? -1 : 1) * (i64(1) << r.range(16, 45)) : 0; // any time may be the first one
  c.add("state", {r.seed(), far + r.range(-3, 6)});
  c.add("input", {r.seed(), -r.range(0, 5)});
  i64 n = r.range(4, th ? 80 : 40);
  for(i64 i = 0; i < n; ++i)
  {
    i64 f = r.chance(fail) ? r.range(1, 8) : 0;
    switch(r.pick({2., 1., 1., 2., 2., 0.5, 0.5, ov * 6, over, ov, 0.05}))
    {
      case 0:
        c.add("step", {0, f});
        break;
      case 1:
        c.add("to", {r.range(-2, 6), f});
        break;
      case 2:
        c.add("input", {r.seed(), r.range(over ? -6 : 0, 5)});
        break;
      case 3:
        c.add("getx", {r.range(-8, 5), f});
        break;
      case 4:
        c.add("gety", {r.range(-8, 5), f});
        break;
      case 5:
        c.add("arrx", {r.range(-8, 4), r.range(0, 5)});
        break;
      case 6:
        c.add("arry", {r.range(-8, 4), r.range(0, 5)});
        break;
      case 7:
        c.add("state", {r.seed(), r.range(0, 40)});
        break;
      case 8:
        c.add("getinput", {r.range(-12, 8)});
        break;
      case 9:
        c.add("badstate", {0, r.range(0, 9)});
        break;
      default:
        c.add("reset", {r.range(0, 1)});
        c.add("state", {r.seed(), r.range(-3, 6)});
        c.add("input", {r.seed(), -r.range(0, 3)});
    }
  }
  return c;
}
void execC11(const Case & k, Ctx & c)
{
  SimRig rig(c, k);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
    c.log("%s t=%lld", k.ops[i].n.c_str(), (long long)rig.last());
  }
  c.nontrivial = rig.steps > 2 && rig.queries > 1;
}
Reg rC11({"C11", "simulator", 120000, 1500000,
          "random histories of state and input overrides, stepping, out-of-order state/measurement/array queries and throwing system functions; "
          "non-trivial: more than two simulated steps and two queries; distinct: different op list",
          "DynamicalSystemSimulator, IndexedMatrixArray", "system functor", genC11, execC11});

// ================================================================ C14
// A sensor of the user: its model may fail when it is read
struct UserSensor : public so::AlgebraicSensor
{
  i64 throwAt = 0;
  static Vec model(const Vec & x)
  {
    Vec y(4);
    y << x[0] * x[1], std::sin(x[2]), x[3] - x[4], x[0];
    return y;
  }

protected:
  so::Index getStateSize_() const override
  {
    return 5;
  }
  so::Index getMeasurementSize_() const override
  {
    return 4;
  }
  so::Vector computeNoiselessMeasurement_() override
  {
    Disarm d;
    if(throwAt > 0 && --throwAt == 0) throw Boom();
    return model(state_);
  }
};
// how the user adds a noise to a measurement
i64 sumThrowAt = 0;
void sumMinus(const so::Vector & x, const so::Vector & n, so::Vector & r)
{
  Disarm d;
  if(sumThrowAt > 0 && --sumThrowAt == 0) throw Boom();
  r = x - 2 * n;
}
void sumSwap(const so::Vector & x, const so::Vector & n, so::Vector & r)
{
  Disarm d;
  if(sumThrowAt > 0 && --sumThrowAt == 0) throw Boom();
  r = x + n.reverse();
}
struct SensRig
{
  Ctx & c;
  const Case & k;
  bool mag, mat;
  bool user = false;
  std::unique_ptr<UserSensor> us;
  int summing[2] = {0, 0};
  int warm[2] = {0, 0}; // noisy readings with each noise since the sizes changed (resizing in Eigen is not safe when it fails)
  i64 concat;
  std::unique_ptr<so::AccelerometerGyrometer> ag;
  std::unique_ptr<so::AccelerometerGyrometerMagnetometer> agm;
  so::AlgebraicSensor * s;
  so::GaussianWhiteNoise noise[2];
  Mat L[2];
  Vec b[2];
  int cur = -1;
  bool set = false, haveNoisy = false;
  Vec clean, noisy;
  i64 t = 0;
  i64 dim;
  std::vector<Vec> white; // standardised noise realisations, in order
  i64 reads = 0;
  SensRig(Ctx & cc, const Case & kk) : c(cc), k(kk)
  {
    mag = k.c("mag");
    mat = k.c("mat");
    concat = k.c("concat");
    user = k.c("user");
    sumThrowAt = 0;
    Arm g;
    if(user)
    {
      us.reset(new UserSensor);
      s = us.get();
    }
    else if(mag)
    {
      agm.reset(new so::AccelerometerGyrometerMagnetometer);
      if(mat || k.c("say")) agm->setMatrixMode(mat);
      s = agm.get();
    }
    else
    {
      ag.reset(new so::AccelerometerGyrometer);
      if(mat || k.c("say")) ag->setMatrixMode(mat);
      s = ag.get();
    }
    if(concat) s->concatenateWithInput(concat);
    dim = own() + concat;
    {
      Disarm d;
      c.check(i64(s->getMeasurementSize()) == dim, "sensor-size", "measurement size %lld, expected %lld", (long long)s->getMeasurementSize(), (long long)dim);
      c.check(i64(s->getStateSize()) == ownState() + concat, "sensor-size", "state size %lld", (long long)s->getStateSize());
    }
    for(int i = 0; i < 2; ++i)
    {
      noise[i].setDimension(dim);
      tune(i, k.c("noise") + i);
    }
    for(i64 q = k.c("burn"); q > 0; --q) (void)so::tools::ProbabilityLawSimulation::getGaussianScalar();
  }
  i64 own() const
  {
    return user ? 4 : mag ? 9 : 6;
  }
  i64 ownState() const
  {
    return user ? 5 : mat ? 15 : 10;
  }
  void tune(int i, i64 seed)
  {
    Rng r{u64(seed)};
    double sc = std::pow(10., r.uni(-3, 1));
    b[i] = r.chance(0.5) ? Vec(Vec::Zero(dim)) : rvec(u64(seed) + 1, dim, sc);
    Arm g;
    noise[i].setBias(b[i]);
    if(r.chance(0.5))
    {
      Mat cov = rspd(u64(seed) + 2, dim, sc * sc * 0.1, sc * sc);
      noise[i].setCovarianceMatrix(cov);
      L[i] = cov.llt().matrixL();
    }
    else
    {
      L[i] = Mat(Vec(rvec(u64(seed) + 3, dim, sc).cwiseAbs() + Vec::Constant(dim, 0.1 * sc)).asDiagonal());
      noise[i].setStandardDeviation(L[i]);
    }
  }
  void read(bool wantNoisy)
  {
    if(!set) return;
    Vec g = LIB(Vec(s->getMeasurements(wantNoisy)));
    ++reads;
    if(wantNoisy && cur >= 0) ++warm[cur];
    if(!wantNoisy || cur < 0)
    {
      double sc = std::max(1., clean.cwiseAbs().maxCoeff());
      c.close(g / sc, clean / sc, 1e-12, "sensor-clean", "noiseless measurement");
      return;
    }
    if(haveNoisy)
    {
      c.close(g, noisy, 0., "sensor-latched", "second noisy reading of the same time");
      return;
    }
    haveNoisy = true;
    noisy = g;
    Vec e = g - clean;
    if(summing[cur] == 1) e = -0.5 * e;
    if(summing[cur] == 2) e = e.reverse().eval();
    Vec w = L[cur].triangularView<Eigen::Lower>().solve(e - b[cur]);
    c.check(finite(w) && w.cwiseAbs().maxCoeff() < 8., "noise-law", "a noise realisation is %g standard deviations away", w.cwiseAbs().maxCoeff());
    c.fold(g);
    white.push_back(w);
  }
  void apply(const Op & o)
  {
    const std::string & n = o.n;
    if(n == "state")
    {
      u64 sd = u64(o.arg(0));
      Eigen::Quaterniond q = rquat(sd);
      Eigen::Vector3d a = rvec(sd + 1, 3, 20.), w = rvec(sd + 2, 3, 10.);
      Vec in = rvec(sd + 3, concat, 5.);
      Eigen::Matrix3d R = q.toRotationMatrix();
      Vec x(ownState() + concat);
      Vec xu = rvec(sd + 4, 5, 3.);
      if(user)
        x << xu, in;
      else if(mat)
        x << Eigen::Map<Eigen::VectorXd>(R.data(), 9), a, w, in;
      else
        x << q.coeffs(), a, w, in;
      t += o.arg(1);
      LIB(s->setState(x, t));
      c.check(i64(LIB(s->getTime())) == t, "sensor-time", "time is %lld, expected %lld", (long long)LIB(s->getTime()), (long long)t);
      clean.resize(dim);
      if(user)
        clean.head(4) = UserSensor::model(xu);
      else
      {
        clean.head(3) = R.transpose() * (a + Eigen::Vector3d(0, 0, 9.8));
        clean.segment(3, 3) = R.transpose() * w;
      }
      if(mag && !user) clean.segment(6, 3) = R.transpose() * Eigen::Vector3d(0, 28, -33.7);
      clean.tail(concat) = in;
      set = true;
      haveNoisy = false;
    }
    else if(n == "read")
      read(o.arg(0));
    else if(n == "noise")
    {
      if(haveNoisy) return; // takes effect at the next time
      cur = int(o.arg(0) % 2);
      LIB(s->setNoise(&noise[cur]));
      c.check(LIB(s->getNoise()) == &noise[cur], "sensor-noise", "the noise set is not the one in use");
    }
    else if(n == "nonoise")
    {
      LIB(s->resetNoise());
      cur = -1;
      haveNoisy = false;
      if(set && o.arg(0)) read(true);
      set = false; // what a noise set again at the same time does is not specified
      c.fault("noise_removed");
    }
    else if(n == "mode" || n == "inputs") // the next state has another form
    {
      if(n == "mode")
      {
        if(user) return;
        mat = o.arg(0);
        if(mag)
          LIB((agm->setMatrixMode(mat), 0));
        else
          LIB((ag->setMatrixMode(mat), 0));
      }
      else
      {
        concat = o.arg(0);
        dim = own() + concat;
        warm[0] = warm[1] = 0;
        c.check(i64(LIB(s->concatenateWithInput(concat))) == dim, "sensor-size", "the measurement size given is not %lld", (long long)dim);
        for(int i = 0; i < 2; ++i)
        {
          LIB((noise[i].setDimension(dim), 0));
          c.check(i64(LIB(noise[i].getDimension())) == dim, "noise-size", "dimension %lld, expected %lld", (long long)noise[i].getDimension(), (long long)dim);
          if(o.arg(2)) // the law of a noise whose size has just been given
          {
            b[i] = Vec::Zero(dim);
            L[i] = Mat::Identity(dim, dim);
          }
          else
            tune(i, o.arg(1) + i);
        }
        white.clear();
      }
      c.check(i64(s->getMeasurementSize()) == dim, "sensor-size", "measurement size %lld, expected %lld", (long long)s->getMeasurementSize(), (long long)dim);
      c.check(i64(s->getStateSize()) == ownState() + concat, "sensor-size", "state size %lld", (long long)s->getStateSize());
      set = haveNoisy = false;
    }
    else if(n == "tune")
    {
      if(haveNoisy) return;
      tune(int(o.arg(0) % 2), o.arg(1));
    }
    else if(n == "sum")
    {
      int i = int(o.arg(0) % 2);
      if(haveNoisy) return;
      summing[i] = int(1 + o.arg(1) % 2);
      LIB((noise[i].setSumFunction(summing[i] == 1 ? &sumMinus : &sumSwap), 0));
    }
    else if(n == "fault") // the reading fails; the next one must be right
    {
      if(!set) return;
      bool wantNoisy = o.arg(1);
      bool thrown = false;
      i64 kind = o.arg(0) % 3;
      if(kind == 0 && us) us->throwAt = 1;
      if(kind == 1) sumThrowAt = 1;
      if(kind == 2 && (cur < 0 || warm[cur] < 2)) return;
      if(kind == 2) alloc::failAt(1 + o.arg(2) % 8);
      try
      {
        (void)LIB(Vec(s->getMeasurements(wantNoisy)));
      }
      catch(const Boom &)
      {
        thrown = true;
      }
      catch(const std::bad_alloc &)
      {
        thrown = true;
      }
      alloc::failAt(0);
      sumThrowAt = 0;
      if(us) us->throwAt = 0;
      if(thrown) c.fault(kind == 0 ? "sensor_model_throws" : kind == 1 ? "noise_sum_throws" : "allocation_failure");
      if(!thrown && wantNoisy && cur >= 0 && !haveNoisy)
      {
        // the reading is the one of this time from now on
        noisy = LIB(Vec(s->getMeasurements(true)));
        haveNoisy = true;
      }
      read(o.arg(1));
    }
    else if(n == "burn")
    {
      // another user of the random source
      for(i64 q = 0; q < o.arg(0); ++q) (void)LIB(so::tools::ProbabilityLawSimulation::getUniformScalar(0, 1));
      c.fault("interleaved_random_draws");
    }
    else if(n == "badnoise")
    {
      c.check(refused([&]() { LIB(noise[0].setBias(rvec(1, dim + 1))); }) && refused([&]() { (void)LIB(Vec(noise[0].getNoisy(rvec(1, dim + 1)))); })
                  && refused([&]() { LIB(noise[0].setCovarianceMatrix(Mat::Identity(dim + 1, dim + 1))); }),
              "noise-refusal", "a vector of a wrong size was accepted");
      c.fault("refused_call");
    }
    else if(n == "uniform")
    {
      double lo = double(o.arg(0)), hi = lo + double(1 + std::llabs(o.arg(1)));
      double v = LIB(so::tools::ProbabilityLawSimulation::getUniformScalar(lo, hi));
      c.check(v >= lo && v <= hi, "noise-law", "uniform draw %g outside [%g,%g]", v, lo, hi);
      double g = LIB(so::tools::ProbabilityLawSimulation::getGaussianScalar(0.5, lo));
      c.check(std::fabs(g - lo) < 4., "noise-law", "gaussian draw %g sigma away", std::fabs(g - lo) / 0.5);
      c.fold(v);
      c.fold(g);
    }
    c.state(mix64(u64(cur + 2) * 8 + u64(haveNoisy) * 4 + u64(set) * 2 + u64(mat), u64(dim)));
  }
  void statistics()
  {
    i64 N = i64(white.size());
    if(N * dim < 600) return;
    c.probe("noise_statistics_checked");
    double M = double(N * dim);
    double s1 = 0, s2 = 0, lag = 0, cross = 0;
    Vec m1 = Vec::Zero(dim), m2 = Vec::Zero(dim);
    for(i64 i = 0; i < N; ++i)
    {
      s1 += white[size_t(i)].sum();
      s2 += white[size_t(i)].squaredNorm();
      m1 += white[size_t(i)];
      m2 += white[size_t(i)].cwiseAbs2();
      if(i) lag += white[size_t(i)].dot(white[size_t(i - 1)]);
      for(i64 j = 1; j < dim; ++j) cross += white[size_t(i)][j] * white[size_t(i)][j - 1];
    }
    c.check(std::fabs(s1) < 7 * std::sqrt(M), "noise-law", "the noise has mean %g standard deviations", s1 / M);
    c.check(std::fabs(s2 / M - 1) < 8 * std::sqrt(2. / M), "noise-law", "the noise has variance %g times the one set", s2 / M);
    c.check(std::fabs(lag) < 8 * std::sqrt(M), "noise-law", "the noise is correlated in time (%g)", lag / M);
    c.check(std::fabs(cross) < 8 * std::sqrt(M), "noise-law", "whitened components are correlated (%g)", cross / M);
    if(N >= 200)
      for(i64 j = 0; j < dim; ++j)
      {
        c.check(std::fabs(m1[j]) < 7 * std::sqrt(double(N)), "noise-law", "component %lld has mean %g standard deviations", (long long)j, m1[j] / double(N));
        c.check(std::fabs(m2[j] / double(N) - 1) < 9 * std::sqrt(2. / double(N)), "noise-law", "component %lld has variance %g times the one set",
                (long long)j, m2[j] / double(N));
      }
  }
};
Case genC14(Rng & r, bool th)
{
  Case c;
  c.cfg["mag"] = r.chance(0.5);
  c.cfg["mat"] = r.chance(0.4);
  c.cfg["concat"] = r.chance(0.6) ? 0 : r.range(1, 4);
  c.cfg["say"] = r.chance(0.5);
  c.cfg["user"] = r.chance(0.25);
  c.cfg["noise"] = r.seed();
  c.cfg["burn"] = r.range(0, 200);
  bool longRun = r.chance(0.08);
  i64 n = longRun ? r.range(250, 400) : r.range(4, th ? 60 : 40);
  double pn = r.chance(0.2) ? 0 : r.uni(0.05, 0.5);
  if(longRun) c.add("noise", {r.range(0, 1)});
  for(i64 i = 0; i < n; ++i)
  {
    if(!longRun && r.chance(0.03)) c.add("mode", {r.range(0, 1)});
    if(!longRun && r.chance(0.03)) c.add("inputs", {r.range(0, 4), r.seed(), r.chance(0.3)});
    if(r.chance(0.02)) c.add("sum", {r.range(0, 1), r.range(0, 1)});
    c.add("state", {r.seed(), r.range(0, 3)});
    if(r.chance(pn))
      switch(r.pick({3., 0.4, 1., 1., 0.2, 0.5}))
      {
        case 0:
          c.add("noise", {r.range(0, 1)});
          break;
        case 1:
          c.add("nonoise", {r.range(0, 1)});
          c.add("state", {r.seed(), 1});
          break;
        case 2:
          c.add("tune", {r.range(0, 1), r.seed()});
          break;
        case 3:
          c.add("burn", {r.range(1, 5)});
          break;
        case 4:
          c.add("badnoise", {});
          break;
        default:
          c.add("uniform", {r.range(-5, 5), r.range(0, 9)});
      }
    if(r.chance(0.06)) c.add("fault", {r.range(0, 2), r.chance(0.7), r.range(0, 7)});
    for(i64 q = longRun ? 1 : r.range(0, 5); q > 0; --q) c.add("read", {longRun ? 1 : r.chance(0.6)});
    if(r.chance(0.1)) c.add("uniform", {r.range(-5, 5), r.range(0, 9)});
  }
  return c;
}
void execC14(const Case & k, Ctx & c)
{
  SensRig rig(c, k);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
  }
  rig.statistics();
  c.nontrivial = rig.reads > 2;
}
Reg rC14({"C14", "sensors", 80000, 1000000,
          "random schedules of state changes, repeated noisy and noiseless readings, noise changes and foreign random draws on every sensor kind "
          "with a seeded random source; non-trivial: more than two readings; distinct: different op list",
          "AccelerometerGyrometer, AccelerometerGyrometerMagnetometer, AlgebraicSensor, GaussianWhiteNoise, ProbabilityLawSimulation",
          "std::random_device (seeded); one sensor kind with the model in the harness", genC14, execC14});
} // namespace
} // namespace sim
