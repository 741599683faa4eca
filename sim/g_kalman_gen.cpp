#include "rig_kf.hpp"
#include <algorithm>

namespace sim
{
void genKfConfig(Rng & r, Case & c)
{
  c.cfg["plant"] = r.seed();
  c.cfg["ext"] = r.chance(0.55);
  c.cfg["kind"] = (c.cfg["ext"] && r.chance(0.3)) ? 1 : 0;
  c.cfg["mquat"] = r.chance(0.4);
  c.cfg["n"] = r.range(1, 5);
  c.cfg["m"] = r.range(1, 4);
  c.cfg["p"] = r.chance(0.3) ? 0 : r.range(1, 3);
  if(c.cfg["kind"] == 1)
  {
    c.cfg["n"] = 7;
    c.cfg["m"] = c.cfg["mquat"] ? 7 : 6;
  }
  c.cfg["needF"] = r.chance(0.7);
  c.cfg["needH"] = r.chance(0.4);
  c.cfg["dzero"] = r.chance(0.5);
  if(r.chance(0.06) && c.cfg["kind"] == 0) // large systems
  {
    c.cfg["n"] = r.range(6, 16);
    c.cfg["m"] = r.range(1, 12);
    c.cfg["p"] = r.range(0, 8);
  }
  c.cfg["t0"] = r.chance(0.5) ? 0 : r.chance(0.9) ? r.range(1, 20) : r.range(0, 5) + (i64(1) << r.range(16, 45)) - 3;
  c.cfg["gainA"] = r.chance(0.8) ? r.range(60, 99) : r.range(100, 115);
}

struct Ev
{
  double at;
  int seq;
  Op op;
};

void genDelivery(Rng & r, Case & c, const Mix & m, i64 ticks)
{
  // network personality of this run
  double jitter = r.chance(0.3) ? 0. : r.uni(0.1, 6.);
  double loss = r.chance(0.5) ? 0. : r.uni(0.02, 0.3);
  double dup = r.chance(0.5) ? 0. : r.uni(0.02, 0.3);
  double stall = r.chance(0.5) ? 0. : r.uni(0.02, 0.2);
  double pushP = r.chance(0.3) ? 0. : r.uni();
  double allP = r.chance(0.5) ? 0. : r.uni();
  double linP = r.chance(0.4) ? 0. : r.uni(0.3, 1.);
  bool linEvery = c.cfg["ext"] && r.chance(0.5);
  std::vector<Ev> ev;
  int seq = 0;
  auto put = [&](double at, Op o) { ev.push_back(Ev{at, seq++, std::move(o)}); };
  double yReady = 0, uReady = 0;
  i64 late = 0, lost = 0;
  for(i64 k = 0; k < ticks; ++k)
  {
    double ty = double(k) + r.uni() * jitter, tu = double(k) - 0.5 + r.uni() * jitter;
    if(r.chance(loss))
    {
      ty += r.uni(1, 5); // lost, retransmitted
      ++lost;
    }
    if(r.chance(loss))
    {
      tu += r.uni(1, 5);
      ++lost;
    }
    if(ty > double(k) + 1) ++late;
    yReady = std::max(yReady, ty); // the driver reassembles in order
    uReady = std::max(uReady, tu);
    bool bad = r.chance(m.corrupt);
    put(yReady, Op{r.chance(pushP) ? "ypush" : "y", {r.seed(), bad ? r.range(1, 8) : 0}});
    put(uReady, Op{r.chance(pushP) ? "upush" : "u", {r.seed(), r.chance(0.1)}});
    if(bad) put(yReady + r.uni(1, 4), Op{r.chance(0.5) ? "cur" : "state", {r.seed(), 0}});
    if(r.chance(dup)) put(yReady + r.uni(0, 2), Op{"yre", {r.seed(), r.range(0, 7), r.chance(0.5)}});
    if(r.chance(dup)) put(uReady + r.uni(0, 2), Op{"ure", {r.seed(), r.range(0, 7), r.chance(0.5)}});
    if(!r.chance(stall))
    {
      double te = double(k) + r.uni(0.2, 0.9);
      if(linEvery || r.chance(linP * 0.3)) put(te - 0.01, Op{"lin", {}});
      if(r.chance(allP))
        put(te, Op{"estAll", {}});
      else
        put(te, Op{"est", {r.chance(0.6) ? 1 : r.range(1, 12)}});
    }
    double tx = double(k) + r.uni();
    if(r.chance(m.stateJump)) put(tx, Op{"state", {r.seed(), r.range(-3, 3)}});
    if(r.chance(m.cur)) put(tx, Op{"cur", {r.seed()}});
    if(r.chance(m.cur)) put(tx, Op{"cov", {r.seed()}});
    if(r.chance(m.mats)) put(tx, Op{"mat", {r.range(0, 5), r.seed()}});
    if(r.chance(m.predict)) put(tx, Op{"predict", {r.range(0, 1)}});
    if(r.chance(m.fd)) put(tx, Op{"fd", {}});
    if(r.chance(m.simY)) put(tx, Op{"simY", {}});
    if(r.chance(m.clears))
    {
      static const char * kinds[] = {"clrY", "clrU", "clrYU", "clrX"};
      i64 w = r.range(0, 3);
      put(tx, Op{kinds[w], {}});
      if(w == 3) put(tx + r.uni(0, 2), Op{"init", {r.seed(), r.range(-1, 2)}});
    }
    if(r.chance(m.bad)) put(tx, Op{"badY", {r.seed(), r.range(0, 5)}});
    if(r.chance(m.bad)) put(tx, Op{"badU", {r.seed(), r.range(0, 5)}});
    if(r.chance(m.bad)) put(tx, Op{"badT", {r.range(0, 1)}});
    if(r.chance(m.over)) put(tx, Op{"over", {r.range(0, 2)}});
    if(r.chance(m.fail)) put(tx, Op{"failstep", {r.range(0, 1), r.range(0, 23)}});
    if(r.chance(m.sizes))
    {
      i64 what = r.chance(0.5) ? 0 : r.range(1, 2);
      put(tx, Op{"size", {r.range(0, 9), r.seed(), what}});
      if(what == 2) put(tx + r.uni(0, 1.5), Op{"init", {r.seed(), r.range(0, 2)}});
      if(r.chance(0.4))
      {
        double tb = tx + r.uni(0, 2);
        i64 w = r.range(0, 5);
        put(tb, Op{"bounce", {w}});
        if(w % 3 == 2) put(tb + r.uni(0, 1.), Op{"init", {r.seed(), r.range(0, 2)}});
        put(tb + r.uni(0, 3), Op{"setM", {r.seed()}});
      }
    }
    if(r.chance(m.feed)) put(tx, Op{"feed", {r.range(0, 1), r.seed()}});
    if(r.chance(m.lose))
    {
      put(tx, Op{"clrM", {r.range(0, 7)}});
      put(tx + r.uni(0, 2), Op{"setM", {r.seed()}});
    }
    if(r.chance(m.get)) put(tx, Op{"get", {}});
    if(r.chance(m.resets))
    {
      put(tx, Op{"reset", {r.range(0, 1)}});
      put(tx + r.uni(0, 1.5), Op{"init", {r.seed(), r.range(0, 2)}});
    }
  }
  put(double(ticks) + 20, Op{"est", {1000}});
  std::stable_sort(ev.begin(), ev.end(), [](const Ev & a, const Ev & b) { return a.at < b.at || (a.at == b.at && a.seq < b.seq); });
  c.add("init", {r.seed(), 0});
  for(auto & e : ev) c.ops.push_back(e.op);
  c.cfg["late"] = late;
  c.cfg["lost"] = lost;
}
} // namespace sim
