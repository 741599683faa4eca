// C12: the tilt estimator against an independent model, under late, lost and faulty samples, and its recovery
#include "core.hpp"

#include <deque>
#include <memory>
#include <state-observation/observer/tilt-estimator.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
const double G = 9.8;
double par(i64 v, double lo, double hi) // log scale over 0..1000
{
  return lo * std::pow(hi / lo, double(std::llabs(v) % 1001) / 1000.);
}
V3 v3(i64 seed, double s)
{
  return rvec(u64(seed), 3, s);
}
template<typename F>
bool refused(F f)
{
  try
  {
    f();
  }
  catch(const AssertFailure &)
  {
    return true;
  }
  return false;
}

struct Rig
{
  Ctx & c;
  const Case & k;
  std::unique_ptr<so::TiltEstimator> e;
  // settings
  double al, be, ga, dt;
  M3 R = M3::Identity();
  V3 p = V3::Zero(), v = V3::Zero(), w = V3::Zero(), vc = V3::Zero();
  // model
  V3 x1, xp, x2;
  bool unit = true;
  i64 t = 0;
  bool haveY = false;
  std::deque<std::pair<V3, V3>> q;
  // plant
  M3 Rw = M3::Identity();
  V3 vel = V3::Zero(), lastA = V3::Zero(), lastG = V3::Zero();
  double phase, amp, wamp;
  i64 plantStep = 0;
  i64 steps = 0;
  double blown = 1;

  Rig(Ctx & cc, const Case & kk) : c(cc), k(kk)
  {
    al = par(k.c("al"), 1., 60.);
    be = par(k.c("be"), 0.3, 20.);
    ga = par(k.c("ga"), 0.5, 60.);
    dt = par(k.c("dt"), 0.001, 0.01);
    phase = double(k.c("phase") % 1000);
    amp = double(k.c("amp") % 1000) / 250.;
    wamp = double(k.c("wamp") % 1000) / 500.;
    Rw = rrot(u64(k.c("rw")));
    Arm g;
    e.reset(new so::TiltEstimator(al, be, ga));
    e->setSamplingTime(dt);
    start(k.c("x0"), k.c("t0"));
  }
  void start(i64 seed, i64 t0)
  {
    Arm g;
    x1 = v3(seed, 2.);
    x2 = rquat(u64(seed) + 1) * V3::UnitZ();
    unit = u64(seed) % 5 != 3; // an estimate given roughly: any step brings it back to a direction
    if(!unit) x2 *= 0.2 + 0.1 * double(u64(seed) / 5 % 15);
    xp = (seed & 1) ? x2 : V3(v3(seed + 2, 2.));
    Vec x(9);
    x << x1, xp, x2;
    i64 was = t;
    bool had = steps > 0;
    t = t0;
    e->setState(x, t0);
    (void)was;
    (void)had;
    q.clear();
  }
  void step(const V3 & ya, const V3 & yg)
  {
    V3 m = R.transpose() * (vc + v) + (yg - R.transpose() * w).cross(R.transpose() * p);
    V3 inn = m - x1;
    V3 d1 = x1.cross(yg) - G * xp + ya + al * inn;
    V3 dp = xp.cross(yg) - be * inn;
    V3 d2 = x2.cross(yg - ga * x2.cross(xp));
    x1 += dt * d1;
    xp += dt * dp;
    x2 += dt * d2;
    x2.normalize();
    unit = true;
    ++t;
    ++steps;
    c.simTime += dt;
  }
  void verify(const Vec & g, const char * what)
  {
    c.check(g.size() == 9 && finite(g), "tilt-finite", "the estimate is not finite %s", what);
    c.check(!unit || std::fabs(g.tail(3).norm() - 1) < 1e-9, "tilt-norm", "the tilt has norm %.15g %s", g.tail(3).norm(), what);
    Vec m(9);
    m << x1, xp, x2;
    double s = std::max({1., x1.norm(), xp.norm()});
    // the recursion amplifies rounding along with the estimate
    blown = std::max(blown, s);
    c.close(Vec(g.head(6) / blown), Vec(m.head(6) / blown), 1e-8, "tilt-model", what);
    if(blown < 1e3) c.close(Vec(g.tail(3)), Vec(m.tail(3)), 1e-7, "tilt-model", what);
    c.check(i64(LIB(e->getCurrentTime())) == t, "tilt-time", "time %lld, expected %lld", (long long)LIB(e->getCurrentTime()), (long long)t);
    c.fold(g);
  }
  void sync() // process everything in the model
  {
    while(!q.empty())
    {
      step(q.front().first, q.front().second);
      q.pop_front();
    }
  }
  void update(int how)
  {
    if(q.empty() && how != 2) return;
    i64 n = i64(q.size());
    Vec g;
    if(how == 0)
    {
      LIB(e->estimateState());
      sync();
      g = LIB(Vec(e->getCurrentEstimatedState()));
    }
    else if(how == 1)
    {
      // only a part
      i64 to = t + 1 + i64(u64(steps * 7 + n) % u64(n));
      g = LIB(Vec(e->getEstimatedState(to)));
      while(t < to)
      {
        step(q.front().first, q.front().second);
        q.pop_front();
      }
    }
    else
      g = LIB(Vec(e->getEstimatedState(t)));
    verify(g, "after an update");
  }
  void give(const V3 & ya, const V3 & yg, int how)
  {
    Vec y(6);
    y << ya, yg;
    i64 at = t + i64(q.size()) + 1;
    if(how == 1)
      LIB(e->ZeroDelayObserver::setMeasurement(y, at));
    else
      LIB(e->setMeasurement(ya, yg, at));
    q.push_back({ya, yg});
  }
  // plant: advance one period, give the healthy sample
  void plant(V3 & ya, V3 & yg, V3 & x1true)
  {
    double T = double(plantStep) * dt + phase;
    V3 a = amp * V3(std::sin(1.1 * T), std::cos(0.7 * T), 0.5 * std::sin(0.5 * T));
    V3 wb = wamp * V3(std::cos(0.9 * T), std::sin(0.6 * T), std::sin(1.3 * T));
    ++plantStep;
    Rw = Rw * Eigen::AngleAxisd(dt * wb.norm(), wb.norm() > 0 ? V3(wb.normalized()) : V3(V3::UnitX())).toRotationMatrix();
    vel += dt * (a - 0.5 * vel);
    V3 acc = a - 0.5 * vel;
    ya = Rw.transpose() * (acc + G * V3::UnitZ());
    yg = wb;
    x1true = Rw.transpose() * vel;
  }
  void setVc(const V3 & x1true, const V3 & yg)
  {
    vc = R * (x1true - (yg - R.transpose() * w).cross(R.transpose() * p)) - v;
    LIB(e->setControlOriginVelocityInW(vc));
  }
  void apply(const Op & o)
  {
    const std::string & n = o.n;
    if(n == "plant")
    {
      V3 ya, yg, xt;
      plant(ya, yg, xt);
      if(q.empty()) setVc(xt, yg);
      switch(o.arg(0))
      {
        case 1:
          ya.setZero();
          c.fault("zero_acceleration");
          break;
        case 2:
          ya = v3(o.arg(1), 200.);
          c.fault("accelerometer_spike");
          break;
        case 3:
          yg = v3(o.arg(1), 60.);
          c.fault("gyrometer_spike");
          break;
        case 4:
          ya = lastA;
          yg = lastG;
          c.fault("frozen_sensor");
          break;
        case 5:
          ya = V3::Constant(o.arg(1) & 1 ? 160. : -160.);
          yg = V3::Constant(o.arg(1) & 2 ? 35. : -35.);
          c.fault("saturated_sensor");
          break;
        case 6:
          ya.setZero();
          yg.setZero();
          c.fault("dropout");
          break;
        case 7:
          if(q.empty())
          {
            vc = v3(o.arg(1), 3.);
            LIB(e->setControlOriginVelocityInW(vc));
            c.fault("wrong_velocity");
          }
          break;
        case 8:
          c.fault("lost_sample");
          return;
        case 9:
          ya = v3(o.arg(1), 1.) * 1e6;
          c.fault("huge_acceleration");
          break;
      }
      lastA = ya;
      lastG = yg;
      give(ya, yg, int(o.arg(2) & 1));
      if(!(o.arg(2) & 2)) update(int((o.arg(2) >> 2) % 3) == 1 ? 1 : 0);
    }
    else if(n == "upd")
      update(int(o.arg(0) % 3));
    else if(n == "correct") // a pending sample is given again with another value
    {
      if(q.empty()) return;
      size_t i = size_t(u64(o.arg(0)) % q.size());
      V3 ya = v3(o.arg(1), 10.), yg = v3(o.arg(1) + 1, 3.);
      LIB(e->setMeasurement(ya, yg, t + 1 + i64(i)));
      q[i] = {ya, yg};
      c.fault("redelivered_sample");
    }
    else if(n == "gap")
    {
      i64 at = t + i64(q.size()) + 2 + std::llabs(o.arg(0)) % 3;
      if(o.arg(0) & 1) at = t - 1;
      c.check(refused([&]() { LIB(e->setMeasurement(V3::Zero(), V3::Zero(), at)); }), "tilt-refusal", "a sample at time %lld was accepted at time %lld with %zu pending",
              (long long)at, (long long)t, q.size());
      c.fault("refused_call");
    }
    else if(n == "beyond")
    {
      i64 to = t + i64(q.size()) + 1;
      i64 before = t;
      c.check(refused([&]() { (void)LIB(Vec(e->getEstimatedState(to))); }), "tilt-refusal", "an estimate beyond the last sample was provided");
      (void)before;
      sync(); // the available samples may have been used
      i64 now = i64(LIB(e->getCurrentTime()));
      c.check(now == t, "tilt-time", "time %lld after a request beyond the data, expected %lld", (long long)now, (long long)t);
      verify(LIB(Vec(e->getCurrentEstimatedState())), "after a refused request");
      c.fault("refused_call");
    }
    else if(n == "set")
    {
      i64 s = o.arg(1);
      switch(o.arg(0))
      {
        case 0:
          al = par(s, 1., 60.);
          LIB(e->setAlpha(al));
          c.check(LIB(e->getAlpha()) == al, "tilt-setting", "alpha not set");
          break;
        case 1:
          be = par(s, 0.3, 20.);
          LIB(e->setBeta(be));
          c.check(LIB(e->getBeta()) == be, "tilt-setting", "beta not set");
          break;
        case 2:
          ga = par(s, 0.5, 60.);
          LIB(e->setGamma(ga));
          c.check(LIB(e->getGamma()) == ga, "tilt-setting", "gamma not set");
          break;
        case 3:
          dt = par(s, 0.001, 0.01);
          LIB(e->setSamplingTime(dt));
          c.fault("clock_rate_change");
          break;
        case 4:
          p = v3(s, 0.5);
          LIB(e->setSensorPositionInC(p));
          break;
        case 5:
          R = rrot(u64(s));
          LIB(e->setSensorOrientationInC(R));
          break;
        case 6:
          v = v3(s, 0.5);
          LIB(e->setSensorLinearVelocityInC(v));
          break;
        default:
          w = v3(s, 0.5);
          LIB(e->setSensorAngularVelocityInC(w));
      }
      Arm g;
      bool same = e->getAlpha() == al && e->getBeta() == be && e->getGamma() == ga && e->getSamplingTime() == dt && e->getSensorPositionInC() == p
                  && e->getSensorOrientationInC() == R && e->getSensorLinearVelocityInC() == v && e->getSensorAngularVelocityInC() == w
                  && e->getControlOriginVelocityInW() == vc;
      Disarm d;
      c.check(same, "tilt-setting", "the settings are not those given");
    }
    else if(n == "restart")
    {
      // at another time: pending samples no longer apply (back) or are dropped up to it (forth)
      i64 d = o.arg(1);
      LIB(e->clearMeasurements());
      q.clear();
      start(o.arg(0), t + d);
      blown = 1;
      c.fault("restart");
    }
    else if(n == "oom")
    {
      if(q.empty()) return;
      alloc::failAt(1 + std::llabs(o.arg(0)) % 12);
      bool threw = false;
      try
      {
        LIB(e->estimateState());
      }
      catch(const std::bad_alloc &)
      {
        threw = true;
      }
      alloc::failAt(0);
      if(threw) c.fault("allocation_failure");
      i64 now = i64(LIB(e->getCurrentTime()));
      c.check(now >= t && now <= t + i64(q.size()) && (threw || now == t + i64(q.size())), "tilt-time", "time %lld after a failed update from %lld",
              (long long)now, (long long)t);
      while(t < now)
      {
        step(q.front().first, q.front().second);
        q.pop_front();
      }
      verify(LIB(Vec(e->getCurrentEstimatedState())), "after a failed update");
    }
    c.state(mix64(u64(q.size()) * 16 + u64(steps > 0), u64(al) * 64 + u64(std::min(20., std::log2(1 + blown)))));
  }
};
void common(Rng & r, Case & c)
{
  for(const char * n : {"al", "be", "ga", "dt", "amp", "wamp"}) c.cfg[n] = r.range(0, 1000);
  for(const char * n : {"phase", "rw", "x0"}) c.cfg[n] = r.seed();
  c.cfg["t0"] = r.range(-5, 20) + (r.chance(0.05) ? (r.chance(0.3) ? -1 : 1) * (i64(1) << r.range(16, 45)) : 0);
}
Case genModel(Rng & r, bool th)
{
  Case c;
  common(r, c);
  double late = r.chance(0.4) ? 0 : r.uni(0.1, 0.9), flt = r.chance(0.3) ? 0 : r.uni(0.02, 0.6), set = r.chance(0.4) ? 0 : r.uni(0.02, 0.4),
         oom = r.chance(0.6) ? 0 : r.uni(0.02, 0.3);
  i64 n = r.range(3, th ? 160 : 60);
  for(i64 i = 0; i < n; ++i)
  {
    if(r.chance(set))
      switch(r.pick({8., 1., 1., 1., 1.5, 2.}))
      {
        case 0:
          c.add("set", {r.range(0, 7), r.chance(0.5) ? r.range(0, 1000) : r.seed()});
          break;
        case 1:
          c.add("gap", {r.range(0, 7)});
          break;
        case 2:
          c.add("beyond");
          break;
        case 3:
          c.add("restart", {r.seed(), r.range(-6, 6)});
          break;
        case 4:
          c.add("correct", {r.range(0, 20), r.seed()});
          break;
        default:
          c.add("upd", {r.range(0, 2)});
      }
    if(r.chance(oom)) c.add("oom", {r.range(0, 40)});
    i64 how = r.range(0, 1) | (r.chance(late) ? 2 : 0) | (r.range(0, 2) << 2);
    c.add("plant", {r.chance(flt) ? r.range(1, 9) : 0, r.seed(), how});
  }
  c.add("upd", {0});
  return c;
}
void execModel(const Case & k, Ctx & c)
{
  Rig rig(c, k);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
    c.log("%s t=%lld pending %zu", k.ops[i].n.c_str(), (long long)rig.t, rig.q.size());
  }
  c.nontrivial = rig.steps > 2;
}
Case genConv(Rng & r, bool th)
{
  Case c;
  common(r, c);
  c.cfg["al"] = r.range(400, 1000);
  c.cfg["be"] = r.range(400, 1000);
  c.cfg["ga"] = r.range(400, 1000);
  c.cfg["amp"] = r.range(0, 500);
  c.cfg["wamp"] = r.range(0, 250);
  for(int s = 4; s < 8; ++s)
    if(r.chance(0.5)) c.add("set", {s, r.seed()});
  double flt = r.uni(0.05, 0.7);
  i64 n = r.range(1, th ? 200 : 80);
  for(i64 i = 0; i < n; ++i) c.add("plant", {r.chance(flt) ? r.range(1, 9) : 0, r.seed(), r.range(0, 1) | (r.chance(0.2) ? 2 : 0)});
  c.add("heal", {r.range(0, 1)});
  return c;
}
void execConv(const Case & k, Ctx & c)
{
  Rig rig(c, k);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    const Op & o = k.ops[i];
    if(o.n != "heal")
    {
      rig.apply(o);
      continue;
    }
    rig.update(0);
    V3 ya, yg, xt;
    // the slowest mode of the linear part and of the tilt on the sphere, plus the worst distance to come back from
    double disc = rig.al * rig.al - 4 * rig.be * G;
    double slow = disc > 0 ? (rig.al - std::sqrt(disc)) / 2 : rig.al / 2;
    double T = (std::log(1e4 * rig.blown) + 4) / slow + 20. / rig.ga;
    i64 N = i64(T / rig.dt) + 1;
    // nudge away from the unstable equilibrium (exactly opposite tilt)
    for(i64 j = 0; j < N; ++j)
    {
      rig.plant(ya, yg, xt);
      rig.setVc(xt, yg);
      rig.give(ya, yg, int(j & 1));
      rig.update(0);
    }
    V3 truth = rig.Rw.transpose() * V3::UnitZ();
    Vec g = LIB(Vec(rig.e->getCurrentEstimatedState()));
    double et = (g.tail(3) - truth).norm(), ev = (g.head(3) - xt).norm();
    c.log("after %lld healthy samples the tilt error is %g, the velocity error %g (gains %g %g %g dt %g blown %g)", (long long)N, et, ev, rig.al, rig.be,
          rig.ga, rig.dt, rig.blown);
    c.check(et < 0.1 && ev < 0.1, "tilt-convergence", "%lld healthy samples after the faults the tilt error is %g and the velocity error %g", (long long)N, et, ev);
    c.nontrivial = 1;
  }
}
Reg rC12a({"C12", "model", 50000, 1000000,
           "random histories of healthy and faulty samples, late and partial updates, corrected samples, setting changes, restarts, refused calls and "
           "failing allocations, compared after every update with an independent model; non-trivial: more than two steps; distinct: different op list",
           "TiltEstimator, ZeroDelayObserver", "robot and IMU (simulated)", genModel, execModel});
Reg rC12b({"C12", "recovery", 1500, 60000,
           "simulated moving body with sensor faults, then a number of healthy samples computed from the gains, after which the true tilt and velocity "
           "must be recovered; non-trivial: reached the recovery phase; distinct: different op list",
           "TiltEstimator, ZeroDelayObserver", "robot and IMU (simulated)", genConv, execConv});
} // namespace
} // namespace sim
