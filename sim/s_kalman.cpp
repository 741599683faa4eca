// C01 delivery independence / refinement, C02 bookkeeping, C03 restart equivalence, C04 failed steps, C05 covariance
#include "rig_kf.hpp"

namespace sim
{
static void execKf(const Case & k, Ctx & c, bool estimate, bool book, bool diag)
{
  KfRig rig(c, k);
  if(!estimate) rig.tol = 1e300; // values are judged elsewhere
  c.fault("delayed_delivery", u64(k.c("late")));
  c.fault("lost_then_retransmitted", u64(k.c("lost")));
  i64 applied = 0;
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    if(!rig.apply(k.ops[i])) continue;
    ++applied;
    c.log("%s t=%lld pendingY=%zu pendingU=%zu", k.ops[i].n.c_str(), (long long)rig.t, rig.y.size(), rig.u.size());
    if(book) rig.checkBook();
    if(!estimate && rig.xset)
    {
      rig.x = LIB(rig.kf->getCurrentEstimatedState());
      if(rig.pset) rig.P = LIB(rig.kf->getStateCovariance());
    }
    if(estimate) rig.checkEstimate();
    if(diag) rig.checkDiagnostics();
    rig.noteState();
  }
  c.nontrivial = rig.stepsDone > 2 && applied > 5;
}

static Case genC01(Rng & r, bool th)
{
  Case c;
  genKfConfig(r, c);
  Mix m;
  m.mats = r.chance(0.5) ? 0 : r.uni(0, 0.3);
  m.cur = r.chance(0.6) ? 0 : 0.05;
  m.predict = r.chance(0.5) ? 0 : r.uni(0, 0.5);
  m.fd = r.chance(0.6) ? 0 : r.uni(0, 0.4);
  m.simY = r.chance(0.6) ? 0 : 0.1;
  m.sizes = r.chance(0.8) ? 0 : 0.04;
  m.stateJump = r.chance(0.8) ? 0 : 0.04;
  m.feed = r.chance(0.7) ? 0 : 0.06;
  m.lose = r.chance(0.8) ? 0 : 0.05;
  m.get = r.chance(0.5) ? 0 : 0.05;
  genDelivery(r, c, m, r.range(4, th ? 120 : 40));
  return c;
}
static Reg rC01({"C01", "delivery", 90000, 800000,
                 "seeded virtual-time network (delay, loss+retransmission, duplication, late correction, stalled consumer) feeding a "
                 "linear, extended or manifold filter; non-trivial: more than two estimation steps executed; distinct: different op list",
                 "LinearKalmanFilter, ExtendedKalmanFilter, KalmanFilterBase, ZeroDelayObserver, IndexedMatrixArray",
                 "network/driver feeding the filter, user functor (random nonlinear plant)", genC01,
                 [](const Case & k, Ctx & c) { execKf(k, c, true, false, true); }});

static Case genC02(Rng & r, bool th)
{
  Case c;
  genKfConfig(r, c);
  Mix m;
  m.stateJump = r.chance(0.3) ? 0 : r.uni(0, 0.25);
  m.cur = r.chance(0.6) ? 0 : 0.1;
  m.clears = r.chance(0.4) ? 0 : r.uni(0, 0.12);
  m.bad = r.chance(0.4) ? 0 : r.uni(0, 0.2);
  m.over = r.chance(0.5) ? 0 : r.uni(0, 0.15);
  m.sizes = r.chance(0.7) ? 0 : 0.05;
  m.resets = r.chance(0.8) ? 0 : 0.03;
  m.simY = r.chance(0.7) ? 0 : 0.1;
  m.feed = r.chance(0.7) ? 0 : 0.06;
  m.lose = r.chance(0.7) ? 0 : 0.06;
  m.get = r.chance(0.5) ? 0 : 0.05;
  genDelivery(r, c, m, r.range(4, th ? 100 : 40));
  return c;
}
static Reg rC02({"C02", "bookkeeping", 80000, 800000,
                 "histories of set/push/overwrite/clear/rollback/jump/advance and refused calls on a linear or extended filter; "
                 "non-trivial: more than two estimation steps; distinct: different op list",
                 "ZeroDelayObserver and the Kalman filters on top of it", "network/driver, user functor", genC02,
                 [](const Case & k, Ctx & c) { execKf(k, c, false, true, false); }});

static Case genC04(Rng & r, bool th)
{
  Case c;
  genKfConfig(r, c);
  Mix m;
  m.fail = r.uni(0.05, 0.5);
  m.cur = r.chance(0.5) ? 0 : 0.1;
  m.corrupt = r.chance(0.6) ? 0 : 0.05;
  m.predict = r.chance(0.5) ? 0 : 0.2;
  m.mats = r.chance(0.7) ? 0 : 0.1;
  m.over = r.chance(0.7) ? 0 : 0.1;
  m.lose = r.chance(0.5) ? 0 : 0.1;
  m.sizes = r.chance(0.8) ? 0 : 0.04;
  m.feed = r.chance(0.8) ? 0 : 0.05;
  genDelivery(r, c, m, r.range(4, th ? 100 : 40));
  return c;
}
static Reg rC04({"C04", "failed-steps", 90000, 800000,
                 "steps that fail part-way (the user callback throws, the nth allocation fails, data missing), retried after arbitrary "
                 "further deliveries, corrections and corrupted samples; non-trivial: more than two successful steps; distinct: different op list",
                 "LinearKalmanFilter, ExtendedKalmanFilter, ZeroDelayObserver", "network/driver, user functor, allocator", genC04,
                 [](const Case & k, Ctx & c) { execKf(k, c, true, true, false); }});

// ---------------------------------------------------------------- C03 restart equivalence (bit-exact against a fresh instance)
static Case genC03(Rng & r, bool th)
{
  Case c;
  genKfConfig(r, c);
  Mix m;
  m.stateJump = r.chance(0.5) ? 0 : 0.08;
  m.cur = r.chance(0.5) ? 0 : 0.05;
  m.clears = r.chance(0.6) ? 0 : 0.05;
  m.fail = r.chance(0.5) ? 0 : r.uni(0, 0.2);
  m.corrupt = r.chance(0.5) ? 0 : 0.1;
  m.predict = r.chance(0.5) ? 0 : 0.3;
  m.fd = r.chance(0.6) ? 0 : 0.2;
  m.over = r.chance(0.7) ? 0 : 0.1;
  m.simY = r.chance(0.7) ? 0 : 0.2;
  m.sizes = r.chance(0.5) ? 0 : 0.15;
  m.feed = r.chance(0.7) ? 0 : 0.1;
  m.lose = r.chance(0.7) ? 0 : 0.1;
  Case pre = c;
  genDelivery(r, pre, m, r.range(1, th ? 40 : 12));
  Mix q;
  q.predict = r.chance(0.7) ? 0 : 0.2;
  q.fd = r.chance(0.7) ? 0 : 0.2;
  Case post = c;
  genDelivery(r, post, q, r.range(2, th ? 30 : 10));
  c.ops = pre.ops;
  size_t cut = size_t(r.range(1, i64(c.ops.size())));
  c.ops.resize(cut); // the restart lands at an arbitrary point of the history
  c.add("RESTART", {});
  for(auto & o : post.ops) c.ops.push_back(o);
  c.cfg["late"] = pre.cfg["late"] + post.cfg["late"];
  return c;
}
static void execC03(const Case & k, Ctx & c)
{
  KfRig a(c, k);
  size_t i = 0;
  for(; i < k.ops.size() && k.ops[i].n != "RESTART"; ++i)
  {
    c.opIndex = int(i);
    a.apply(k.ops[i]);
  }
  if(i >= k.ops.size()) return;
  c.opIndex = int(i);
  Op rs{"reset", {1}};
  a.apply(rs);
  a.tbase = k.c("t0");
  KfRig b(c, k); // never used before
  a.restoreConfig(b);
  c.check(!LIB(a.kf->stateIsSet()), "restart", "the state survived a reset");
  c.check(LIB(a.kf->getMeasurementsNumber()) == 0 && LIB(a.kf->getInputsNumber()) == 0, "restart", "pending data survived a reset");
  for(++i; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    bool ra = a.apply(k.ops[i]), rb = b.apply(k.ops[i]);
    if(ra != rb) c.fail("harness", "model divergence");
    if(!ra || !a.xset) continue;
    Vec xa = LIB(a.kf->getCurrentEstimatedState()), xb = LIB(b.kf->getCurrentEstimatedState());
    c.close(xa, xb, 0., "restart", "estimate of the restarted observer (expected: the fresh observer's)");
    c.close(LIB(a.kf->getStateCovariance()), LIB(b.kf->getStateCovariance()), 0., "restart", "covariance of the restarted observer");
    c.check(LIB(a.kf->getCurrentTime()) == LIB(b.kf->getCurrentTime()), "restart", "times differ");
    a.noteState();
  }
  c.nontrivial = b.stepsDone > 1;
}
static Reg rC03({"C03", "restart", 100000, 800000,
                 "a filter is driven through a random faulty history, reset at an arbitrary point and then driven in lock-step with a "
                 "never-used filter; non-trivial: at least two steps after the restart; distinct: different op list",
                 "LinearKalmanFilter, ExtendedKalmanFilter, ZeroDelayObserver", "network/driver, user functor, allocator", genC03, execC03});

// ---------------------------------------------------------------- C05 covariance health
static Case genC05(Rng & r, bool th)
{
  Case c;
  genKfConfig(r, c);
  c.cfg["wide"] = 1;
  c.cfg["gainA"] = r.range(20, 130);
  Mix m;
  m.mats = r.uni(0, 0.5);
  m.cur = r.chance(0.5) ? 0 : 0.1;
  m.sizes = r.chance(0.4) ? 0 : r.uni(0, 0.2);
  m.stateJump = r.chance(0.6) ? 0 : 0.05;
  m.corrupt = r.chance(0.6) ? 0 : 0.05;
  m.feed = r.chance(0.7) ? 0 : 0.05;
  m.lose = r.chance(0.7) ? 0 : 0.05;
  genDelivery(r, c, m, r.range(5, th ? 300 : 80));
  return c;
}
static void execC05(const Case & k, Ctx & c)
{
  KfRig rig(c, k);
  rig.tol = 1e300; // estimates are judged by C01; here only the covariance
  c.fault("delayed_delivery", u64(k.c("late")));
  c.fault("lost_then_retransmitted", u64(k.c("lost")));
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    i64 before = rig.stepsDone;
    if(k.ops[i].n == "lin" || k.ops[i].n == "fd") continue; // random Jacobians instead
    rig.scaleMax = 0;
    if(!rig.apply(k.ops[i])) continue;
    rig.noteState();
    if(!rig.pset || rig.stepsDone == before) continue;
    Mat P = LIB(rig.kf->getStateCovariance());
    c.fold(P);
    c.check(finite(P), "covariance-finite", "the covariance is not finite");
    double s = std::max(P.cwiseAbs().maxCoeff(), rig.scaleMax);
    c.check((P - P.transpose()).cwiseAbs().maxCoeff() <= 1e-12 * s, "covariance-symmetric", "the covariance is not symmetric (gap %g)",
            (P - P.transpose()).cwiseAbs().maxCoeff());
    Eigen::SelfAdjointEigenSolver<Mat> es(0.5 * (P + P.transpose()));
    c.check(es.eigenvalues().minCoeff() >= -1e-8 * s, "covariance-positive", "the covariance has eigenvalue %g (scale %g)",
            es.eigenvalues().minCoeff(), s);
    Mat gap = rig.Pbar - P; // information can only shrink the predicted uncertainty
    Eigen::SelfAdjointEigenSolver<Mat> eg(0.5 * (gap + gap.transpose()));
    c.check(eg.eigenvalues().minCoeff() >= -1e-8 * s, "covariance-shrinks",
            "a measurement increased the predicted uncertainty (eigenvalue %g, scale %g)", eg.eigenvalues().minCoeff(), s);
    c.check((P - rig.P).cwiseAbs().maxCoeff() <= 1e-6 * s, "covariance-value", "the covariance differs from the reference by %g (scale %g)",
            (P - rig.P).cwiseAbs().maxCoeff(), s);
    rig.P = P; // follow the implementation so that rounding does not accumulate
    rig.x = LIB(rig.kf->getCurrentEstimatedState());
  }
  c.nontrivial = rig.stepsDone > 3;
}
static Reg rC05({"C05", "covariance", 70000, 500000,
                 "long runs with outages, batches, sensor-set changes and widely varying noise levels; after every call the covariance is "
                 "checked; non-trivial: more than three steps; distinct: different op list",
                 "LinearKalmanFilter, ExtendedKalmanFilter", "network/driver, user functor", genC05, execC05});
} // namespace sim
