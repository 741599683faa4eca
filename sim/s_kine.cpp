// C20: frames, orientations and their kinematics stay consistent under every history of operations on them: the two
// lazily synchronised representations of an orientation always denote the same rotation, partially known kinematics only
// ever report what can be deduced, and integration / update / composition / inversion give what rigid-body mechanics says.
#include "core.hpp"

#include <memory>

#include <state-observation/tools/rigid-body-kinematics.hpp>

namespace sim
{
namespace so = stateObservation;
namespace
{
typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Quaterniond Q;
typedef so::kine::Kinematics K;
typedef so::kine::Orientation O;
typedef K::Flags F;

Q qexp(const V3 & v)
{
  double n = v.norm();
  if(n < 1e-14) return Q::Identity();
  V3 a = v / n * std::sin(n / 2);
  return Q(std::cos(n / 2), a.x(), a.y(), a.z());
}
V3 qlog(Q q)
{
  if(q.w() < 0) q.coeffs() = -q.coeffs();
  double s = q.vec().norm();
  if(s < 1e-14) return 2 * q.vec();
  return q.vec() / s * 2 * std::atan2(s, q.w());
}
double rotDist(const Q & a, const Q & b)
{
  return qlog((a * b.conjugate()).normalized()).norm();
}

struct Mod // reference: what is known about a frame
{
  bool hp = false, ho = false, hv = false, hw = false, ha = false, ht = false;
  V3 p, v, w, a, t;
  Q q;
  double mag() const
  {
    double m = 0;
    if(hp) m = std::max(m, p.norm());
    if(hv) m = std::max(m, v.norm());
    if(hw) m = std::max(m, w.norm());
    if(ha) m = std::max(m, a.norm());
    if(ht) m = std::max(m, t.norm());
    return m;
  }
  void only(int flags)
  {
    hp = hp && (flags & F::position);
    ho = ho && (flags & F::orientation);
    hv = hv && (flags & F::linVel);
    hw = hw && (flags & F::angVel);
    ha = ha && (flags & F::linAcc);
    ht = ht && (flags & F::angAcc);
  }
  int flags() const
  {
    return (hp ? F::position : 0) | (ho ? F::orientation : 0) | (hv ? F::linVel : 0) | (hw ? F::angVel : 0) | (ha ? F::linAcc : 0) | (ht ? F::angAcc : 0);
  }
};

// one axis family (linear or angular) of an update with partial information
struct Fam
{
  bool hx, hv, ha;
  V3 v, a;
};
template<typename Diff, typename Int>
bool updateFam(Fam & me, bool nx, bool nv, bool na, const V3 & newV, const V3 & newA, bool fx, bool fv, bool fa, double dt, Diff diff, Int integ, bool & xFromNew)
{
  // is everything asked for deducible?
  bool both = me.hx && nx;
  if(fx && !nx && !me.hx) return false;
  if(fv && !nv && !both && !me.hv) return false;
  bool velFromPos = fv && !nv && both;
  if(fa && !na && !(me.hv && nv) && !(me.hv && velFromPos) && !both && !me.ha) return false;
  V3 d = both ? V3(diff()) : V3(V3::Zero());
  // acceleration over the interval
  V3 accInt = me.ha ? me.a : V3(V3::Zero());
  V3 accEnd = accInt;
  bool haEnd = me.ha;
  if(fa)
  {
    haEnd = true;
    if(na)
      accEnd = newA;
    else if(me.hv && nv)
      accEnd = accInt = (newV - me.v) / dt;
    else if(me.hv && velFromPos)
      accEnd = (d / dt - me.v) / dt;
    else if(both)
      accEnd = accInt = 2 * d / (dt * dt);
  }
  V3 vEnd = me.v;
  bool hvEnd = me.hv;
  if(fv)
  {
    hvEnd = true;
    if(nv)
      vEnd = newV;
    else if(velFromPos)
      vEnd = d / dt;
    else if(me.ha)
      vEnd = me.v + accInt * dt;
  }
  xFromNew = false;
  if(fx)
  {
    if(nx)
      xFromNew = true;
    else
    {
      V3 inc = V3::Zero();
      if(me.hv) inc += me.v * dt;
      if(me.ha) inc += accInt * dt * dt / 2;
      integ(inc);
    }
  }
  me.v = vEnd;
  me.hv = hvEnd && fv;
  me.a = accEnd;
  me.ha = haEnd && fa;
  me.hx = (me.hx || nx) && fx;
  return true;
}

struct Rig
{
  Ctx & c;
  static const int N = 4;
  std::unique_ptr<K> r[N];
  Mod m[N];
  u64 did = 0;
  double time = 0;
  Rig(Ctx & cc) : c(cc)
  {
    for(int i = 0; i < N; ++i) r[i].reset(LIB(new K()));
    // a new object knows nothing
    for(int i = 0; i < N; ++i) verify(i, 1e-9, "a new object");
  }
  // reads a copy, so that the caches of the object itself stay as the history left them
  void verify(int i, double tol, const char * what)
  {
    K x(*r[i]);
    Mod & w = m[i];
    auto f = [&](bool got, bool want, const char * n) {
      c.check(got == want, "known-parts", "after %s the %s of frame %d is %s", what, n, i, got ? "known but cannot be" : "unknown");
    };
    f(x.position.isSet(), w.hp, "position");
    f(x.orientation.isSet(), w.ho, "orientation");
    f(x.linVel.isSet(), w.hv, "linear velocity");
    f(x.angVel.isSet(), w.hw, "angular velocity");
    f(x.linAcc.isSet(), w.ha, "linear acceleration");
    f(x.angAcc.isSet(), w.ht, "angular acceleration");
    char b[200];
    auto vec = [&](const so::CheckedVector3 & g, bool h, V3 & want, const char * n) {
      if(!h) return;
      V3 gv = g();
      snprintf(b, sizeof b, "%s after %s", n, what);
      double e = (gv - want).norm();
      c.check(e <= tol, "kinematics-value", "%s of frame %d: got (%g %g %g), expected (%g %g %g)", b, i, gv.x(), gv.y(), gv.z(), want.x(), want.y(), want.z());
      want = gv;
      c.fold(gv);
    };
    vec(x.position, w.hp, w.p, "position");
    vec(x.linVel, w.hv, w.v, "linear velocity");
    vec(x.angVel, w.hw, w.w, "angular velocity");
    vec(x.linAcc, w.ha, w.a, "linear acceleration");
    vec(x.angAcc, w.ht, w.t, "angular acceleration");
    if(w.ho)
    {
      O a(x.orientation), d(x.orientation), e(x.orientation);
      M3 R = LIB(M3(a.toMatrix3()));
      Q q = LIB(Q(d.toQuaternion()));
      double rt = std::max(1e-8, std::min(tol, 1e-4));
      c.check((R.transpose() * R - M3::Identity()).norm() < 1e-8 && R.determinant() > 0, "rotation-matrix", "after %s the matrix of frame %d is not a rotation", what, i);
      c.check(std::fabs(q.norm() - 1) < 1e-8, "unit-quaternion", "after %s the quaternion of frame %d has norm %g", what, i, q.norm());
      c.check((q.normalized().toRotationMatrix() - R).norm() < 1e-7, "representations-disagree",
              "after %s the matrix and the quaternion of frame %d are %g apart", what, i, rotDist(q.normalized(), Q(R)));
      c.check(rotDist(q.normalized(), w.q) <= rt, "orientation-value", "after %s the orientation of frame %d is %g rad away from the expected one", what, i,
              rotDist(q.normalized(), w.q));
      // the same rotation read in every other form
      V3 u = V3(0.3, -0.5, 0.7);
      V3 ru = LIB(V3(e * u));
      c.check((ru - w.q * u).norm() <= rt, "orientation-value", "after %s frame %d rotates a vector wrongly", what, i);
      V3 rv = LIB(V3(O(x.orientation).toRotationVector()));
      c.check(rotDist(qexp(rv), w.q) <= rt + 1e-7, "orientation-value", "after %s the rotation vector of frame %d is wrong", what, i);
      w.q = q.normalized();
      c.fold(R);
    }
    if(w.flags())
    {
      so::Vector z = LIB(so::Vector(x.toVector()));
      so::Vector z2 = LIB(so::Vector(x.toVector(F::Byte(w.flags()))));
      c.check(z.size() == z2.size() && (z - z2).norm() == 0, "vector-form", "after %s the vector form of frame %d depends on how it is asked for", what, i);
      i64 n = 3 * (w.hp + w.hv + w.hw + w.ha + w.ht) + 4 * w.ho;
      c.check(z.size() == n, "vector-form", "after %s the vector form of frame %d has %lld components instead of %lld", what, i, (long long)z.size(), (long long)n);
      i64 at = 0;
      auto seg = [&](bool h, const V3 & v) {
        if(!h) return;
        c.check((z.segment<3>(at) - v).norm() == 0, "vector-form", "after %s the vector form of frame %d is not ordered as documented", what, i);
        at += 3;
      };
      seg(w.hp, w.p);
      if(w.ho)
      {
        so::Vector4 z4 = z.segment<4>(at);
        c.check((z4 - w.q.coeffs()).norm() < 1e-7 || (z4 + w.q.coeffs()).norm() < 1e-7, "vector-form", "after %s the vector form of frame %d has another orientation", what, i);
        at += 4;
      }
      seg(w.hv, w.v);
      seg(w.hw, w.w);
      seg(w.ha, w.a);
      seg(w.ht, w.t);
    }
  }
  void all(double tol, const char * what)
  {
    for(int i = 0; i < N; ++i) verify(i, tol, what);
    u64 h = 0;
    for(int i = 0; i < N; ++i)
    {
      h = mix64(h, u64(m[i].flags()) * 4 + (r[i]->orientation.isMatrixSet() ? 1 : 0) + (r[i]->orientation.isQuaternionSet() ? 2 : 0));
      if(m[i].mag() > 100)
      {
        LIB((r[i]->setZero(), 0));
        m[i] = Mod();
        m[i].hp = m[i].ho = m[i].hv = m[i].hw = m[i].ha = m[i].ht = true;
        m[i].p = m[i].v = m[i].w = m[i].a = m[i].t = V3::Zero();
        m[i].q = Q::Identity();
        c.probe("frame restarted far away");
      }
    }
    c.state(h);
  }
  static int ix(i64 v)
  {
    return int(((v % N) + N) % N);
  }
  static double scale(const Mod & a)
  {
    return std::pow(1 + a.mag(), 3);
  }
  void setOri(int i, i64 form, u64 s)
  {
    Q q = rquat(s, s % 5 == 0 ? 3.14159265358979 : s % 5 == 1 ? 1e-7 : 3.1);
    const double pi = 3.14159265358979323846;
    Rng sp{s ^ 77};
    switch(s % 13)
    {
      case 9: q = Q::Identity(); break;
      case 10: // upside down
        q = Q(Eigen::AngleAxisd(pi, V3(std::cos(double(s % 100)), std::sin(double(s % 100)), 0)));
        break;
      case 11: // at the singularity of roll, pitch and yaw, or close
        q = Q(Eigen::AngleAxisd(sp.uni(-3, 3), V3::UnitZ()) * Eigen::AngleAxisd((s & 32 ? 0.5 : -0.5) * pi - (s & 16 ? 1e-4 * sp.uni(-1, 1) : 0.), V3::UnitY())
              * Eigen::AngleAxisd(sp.uni(-3, 3), V3::UnitX()));
        break;
      case 12: // no tilt at all
        q = Q(Eigen::AngleAxisd(sp.uni(-pi, pi), V3::UnitZ()));
        break;
      default: break;
    }
    if(s & 64) q.coeffs() = -q.coeffs();
    Mod & w = m[i];
    O & o = r[i]->orientation;
    M3 R = q.toRotationMatrix();
    Eigen::AngleAxisd aa(q);
    V3 rv = qlog(q);
    if((s & 128) && rv.norm() > 1e-3) rv *= 1 + 2 * pi * double(int(s >> 8 & 7) - 3) / rv.norm(); // whole turns change nothing
    so::Vector4 co = q.coeffs();
    {
      Arm g;
      switch(((form % 17) + 17) % 17)
      {
        case 0: o = so::Quaternion(q); break;
        case 1: o = so::Matrix3(R); break;
        case 2: o = so::Vector3(rv); break;
        case 3: o = so::AngleAxis(aa); break;
        case 4: o.setValue(so::Quaternion(q), so::Matrix3(R)); break;
        case 5: o.fromVector4(co); break;
        case 6:
        {
          V3 e = rvec(s, 3, 1.5);
          q = Q(Eigen::AngleAxisd(e.z(), V3::UnitZ()) * Eigen::AngleAxisd(e.y(), V3::UnitY()) * Eigen::AngleAxisd(e.x(), V3::UnitX()));
          o = O(e.x(), e.y(), e.z());
          break;
        }
        case 7:
          o.setZeroRotation<so::Matrix3>();
          q = Q::Identity();
          break;
        case 8:
          o.setZeroRotation();
          q = Q::Identity();
          break;
        case 9: o = O(so::Matrix3(R)); break;
        case 10: o = O(so::Quaternion(q), so::Matrix3(R)); break;
        case 11: // through the unchecked references: the other representation has to be declared outdated
          o.getQuaternionRefUnsafe() = so::Quaternion(q);
          o.setMatrix(false);
          break;
        case 12:
          o.getMatrixRefUnsafe() = so::Matrix3(R);
          o.setQuaternion(false);
          break;
        case 13: // declared set first, filled afterwards
          o.setQuaternion();
          o.setMatrix(false);
          o.getQuaternionRefUnsafe()() = so::Quaternion(q);
          break;
        case 14:
          o.setMatrix();
          o.setQuaternion(false);
          o.getMatrixRefUnsafe()() = so::Matrix3(R);
          break;
        case 15:
          o = O::zeroRotation();
          q = Q::Identity();
          break;
        default:
        {
          // any rotation, whatever the object held before
          O z(o);
          if(z.isSet()) z.synchronize();
          z.setRandom();
          O y(z);
          M3 zr = z.toMatrix3();
          Q zq = y.toQuaternion();
          if(s & 1) y = O::randomRotation();
          M3 yr = y.toMatrix3();
          {
            Disarm dd;
            c.check(std::fabs(zq.norm() - 1) < 1e-8 && (zr.transpose() * zr - M3::Identity()).norm() < 1e-8, "random-rotation", "a random rotation is not a rotation");
            c.check((zq.toRotationMatrix() - zr).norm() < 1e-8, "representations-disagree", "the representations of a random rotation disagree");
            c.check((yr.transpose() * yr - M3::Identity()).norm() < 1e-8, "random-rotation", "a random rotation is not a rotation");
            c.check((s & 1) || (zr - yr).norm() < 1e-8, "representations-disagree", "the copy of a random rotation is another one");
          }
          o = so::Quaternion(q);
          break;
        }
      }
    }
    w.ho = true;
    w.q = q;
  }
  void setPart(int i, i64 part, u64 s)
  {
    V3 v = rvec(s, 3, 3);
    Mod & w = m[i];
    Arm g;
    switch(((part % 5) + 5) % 5)
    {
      case 0:
        r[i]->position = v;
        w.hp = true;
        w.p = v;
        break;
      case 1:
        r[i]->linVel = v;
        w.hv = true;
        w.v = v;
        break;
      case 2:
        r[i]->angVel = v;
        w.hw = true;
        w.w = v;
        break;
      case 3:
        r[i]->linAcc = v;
        w.ha = true;
        w.a = v;
        break;
      default:
        r[i]->angAcc = v;
        w.ht = true;
        w.t = v;
        break;
    }
  }

  static double ang(const V3 & axis, const V3 & a, const V3 & b) // from a to b about the axis
  {
    V3 u = a - axis * axis.dot(a), v = b - axis * axis.dot(b);
    return std::atan2(axis.dot(u.cross(v)), u.dot(v));
  }
  static double angDist(double a, double b)
  {
    return std::fabs(std::remainder(a - b, 2 * 3.14159265358979323846));
  }
  void isRot(const M3 & R, const char * what)
  {
    c.check((R.transpose() * R - M3::Identity()).norm() < 1e-7 && R.determinant() > 0, "rotation-matrix", "%s is not a rotation", what);
  }
  void sameRot(const M3 & g, const M3 & w, double tol, const char * what)
  {
    double e = (g - w).norm();
    c.check(e <= tol, "rotation-forms", "%s: %g away from the expected rotation", what, e);
  }
  void sameV(const V3 & g, const V3 & w, double tol, const char * what)
  {
    c.check((g - w).norm() <= tol, "rotation-forms", "%s: got (%.12g %.12g %.12g), expected (%.12g %.12g %.12g)", what, g.x(), g.y(), g.z(), w.x(), w.y(), w.z());
  }
  // the functions on plain matrices, quaternions and vectors, on the frames the history led to
  void forms(int i, int j, int k, u64 s, i64 which)
  {
    namespace kn = so::kine;
    Mod &a = m[i], &b = m[j], &d = m[k];
    if(!b.ho || !d.ho) return;
    const double pi = 3.14159265358979323846;
    M3 R = b.q.toRotationMatrix(), R2 = d.q.toRotationMatrix();
    const V3 ez = V3::UnitZ();
    Rng g{s};
    V3 u = rvec(s, 3, 2.);
    switch(((which % 18) + 18) % 18)
    {
      case 0:
      {
        V3 v, v2 = LIB(V3(kn::rotationMatrixToRollPitchYaw(R)));
        V3 v3 = LIB(V3(kn::rotationMatrixToRollPitchYaw(R, v)));
        V3 v4 = LIB(V3(O(r[j]->orientation).toRollPitchYaw()));
        c.check(v == v2 && v3 == v2, "rotation-forms", "the forms of roll, pitch and yaw disagree");
        double cp = std::hypot(R(0, 0), R(1, 0));
        c.check(std::fabs(v2.y()) <= pi / 2 + 1e-12 && std::fabs(v2.x()) <= pi + 1e-12 && std::fabs(v2.z()) <= pi + 1e-12, "rotation-forms", "roll, pitch or yaw out of range");
        c.check(std::fabs(v2.y() - std::atan2(-R(2, 0), cp)) < 1e-7, "rotation-forms", "pitch %.12g", v2.y());
        if(cp > 1e-5)
        {
          auto mk = [](const V3 & e) { return M3(Eigen::AngleAxisd(e.z(), V3::UnitZ()) * Eigen::AngleAxisd(e.y(), V3::UnitY()) * Eigen::AngleAxisd(e.x(), V3::UnitX())); };
          sameRot(mk(v2), R, 1e-9 / cp, "roll, pitch and yaw of a matrix");
          sameRot(mk(v4), R, 1e-7 / cp, "roll, pitch and yaw of a frame");
        }
        break;
      }
      case 1:
      {
        V3 e = rvec(s, 3, g.chance(0.3) ? 9. : 1.6);
        if(g.chance(0.2)) e.y() = pi / 2;
        M3 w = M3(Eigen::AngleAxisd(e.z(), V3::UnitZ()) * Eigen::AngleAxisd(e.y(), V3::UnitY()) * Eigen::AngleAxisd(e.x(), V3::UnitX()));
        sameRot(LIB(M3(kn::rollPitchYawToRotationMatrix(e.x(), e.y(), e.z()))), w, 1e-12, "the matrix of roll, pitch and yaw");
        sameRot(LIB(M3(kn::rollPitchYawToRotationMatrix(e))), w, 1e-12, "the matrix of roll, pitch and yaw");
        sameRot(LIB(Q(kn::rollPitchYawToQuaternion(e.x(), e.y(), e.z()))).toRotationMatrix(), w, 1e-12, "the quaternion of roll, pitch and yaw");
        sameRot(LIB(Q(kn::rollPitchYawToQuaternion(e))).toRotationMatrix(), w, 1e-12, "the quaternion of roll, pitch and yaw");
        break;
      }
      case 2:
      {
        double y = LIB(kn::rotationMatrixToYaw(R));
        double cp = std::hypot(R(0, 0), R(1, 0));
        if(cp > 1e-6) c.check(angDist(y, ang(ez, V3::UnitX(), R.col(0))) < 1e-9 / cp, "rotation-forms", "the yaw is %.12g", y);
        so::Vector2 h = u.head<2>();
        V3 hv(h.x(), h.y(), 0);
        y = LIB(kn::rotationMatrixToYaw(R, h));
        double n = (R * hv).head<2>().norm();
        if(n > 1e-5) c.check(angDist(y, ang(ez, hv, R * hv)) < 1e-9 / n, "rotation-forms", "the yaw with respect to a vector is %.12g", y);
        V3 ax = rvec(s + 1, 3).normalized(), v = rvec(s + 2, 3);
        y = LIB(kn::rotationMatrixToAngle(R, ax, v));
        V3 p1 = v - ax * ax.dot(v), p2 = R * v - ax * ax.dot(R * v);
        n = p1.norm() * p2.norm();
        if(n > 1e-4) c.check(angDist(y, ang(ax, v, R * v)) < 1e-9 / n, "rotation-forms", "the angle about an axis is %.12g", y);
        break;
      }
      case 3:
      {
        double y = LIB(kn::rotationMatrixToYawAxisAgnostic(R));
        V3 h = LIB(V3(kn::getInvariantHorizontalVector(R)));
        double t = std::hypot(R(2, 0), R(2, 1));
        c.check(h.z() == 0 && h.norm() > 0 && std::fabs((R * h.normalized()).z()) < (t > 1e-9 ? 1e-6 : 1e-8), "rotation-forms", "the vector kept horizontal is not");
        if(t > 1e-6)
        {
          V3 w(R(2, 1), -R(2, 0), 0);
          c.check(angDist(y, ang(ez, w, R * w)) < 1e-8, "rotation-forms", "the yaw whatever the tilt is %.12g", y);
        }
        else if(R(2, 2) > 0)
          c.check(angDist(y, std::atan2(R(1, 0), R(0, 0))) < 1e-5, "rotation-forms", "the yaw of a rotation without tilt is %.12g", y);
        bool py = LIB(kn::isPureYaw(R));
        if(t > 1e-9) c.check(!py, "rotation-forms", "a tilted frame is said to be horizontal");
        if(t == 0) c.check(py, "rotation-forms", "a horizontal frame is said to be tilted");
        break;
      }
      case 4: // the tilt of one frame with the yaw of another about a horizontal axis
      {
        V3 t = R.transpose() * ez;
        double th = g.uni(-pi, pi);
        V3 ax = g.chance(0.4) ? V3(V3::UnitX()) : V3(std::cos(th), std::sin(th), 0);
        if(g.chance(0.1)) // close to the singularity
        {
          V3 al = R2.transpose() * ax;
          t = (al + std::pow(10., g.uni(-8.5, -3)) * al.cross(u).normalized()).normalized();
        }
        double n = (R2.transpose() * ax).cross(t).norm();
        if(n < 1e-5)
        {
          if(n > 1e-9)
          {
            bool thrown = false;
            try
            {
              LIB(M3(kn::mergeTiltWithYaw(t, R2, ax)));
            }
            catch(const std::invalid_argument &)
            {
              thrown = true;
            }
            c.check(!thrown, "rotation-forms", "a tilt that is not singular is refused");
          }
          return;
        }
        M3 M;
        switch((t - R.transpose() * ez).norm() > 0 ? 0 : g.range(0, 2))
        {
          case 0: M = LIB(M3(kn::mergeTiltWithYaw(t, R2, ax))); break;
          case 1: M = LIB(M3(kn::mergeRoll1Pitch1WithYaw2(R, R2, ax))); break;
          default:
            ax = V3::UnitX();
            n = (R2.transpose() * ax).cross(t).norm();
            if(n < 1e-5) return;
            M = g.chance(0.5) ? LIB(M3(kn::mergeTiltWithYaw(t, R2))) : LIB(M3(kn::mergeRoll1Pitch1WithYaw2(R, R2)));
            break;
        }
        isRot(M, "a tilt merged with a yaw");
        sameV(M.transpose() * ez, t, 1e-9 / n, "the tilt after merging");
        V3 h = M * R2.transpose() * ax;
        c.check(angDist(ang(ez, ax, h), 0) < 1e-9 / n, "rotation-forms", "the yaw after merging is %.12g off", ang(ez, ax, h));
        Q mq(M);
        LIB((r[i]->orientation = so::Matrix3(M), 0));
        a.ho = true;
        a.q = mq.normalized();
        break;
      }
      case 5: // whatever the axis
      {
        V3 t = R.transpose() * ez;
        V3 x = R2 * t;
        if(x.z() < -1 + 1e-6) return;
        M3 M = g.chance(0.5) ? LIB(M3(kn::mergeTiltWithYawAxisAgnostic(t, R2))) : LIB(M3(kn::mergeRoll1Pitch1WithYaw2AxisAgnostic(R, R2)));
        isRot(M, "a tilt merged with a yaw");
        // the smallest rotation of the second that gives the tilt of the first
        V3 cr = x.cross(ez);
        M3 S;
        S << 0, -cr.z(), cr.y(), cr.z(), 0, -cr.x(), -cr.y(), cr.x(), 0;
        M3 W = (M3::Identity() + S + S * S / (1 + x.z())) * R2;
        sameRot(M, W, 1e-6, "a tilt merged with a yaw whatever the axis");
        Q mq(M);
        LIB((r[i]->orientation = so::Matrix3(M), 0));
        a.ho = true;
        a.q = mq.normalized();
        break;
      }
      case 6: // the smallest rotation from a direction to another
      {
        V3 v1 = u.normalized(), v2 = R * v1;
        if(g.chance(0.2)) v2 = (v1 + 1e-6 * rvec(s + 3, 3)).normalized();
        if(g.chance(0.1)) v2 = -v1;
        if(g.chance(0.1)) v2 = v1;
        if(std::fabs(v1.squaredNorm() - 1) > 2e-16) v1 = V3::UnitY();
        if(std::fabs(v2.squaredNorm() - 1) > 2e-16) v2 = V3::UnitZ();
        bool thrown = false;
        M3 M;
        try
        {
          M = LIB(M3(kn::twoVectorsToRotationMatrix(v1, v2)));
        }
        catch(const std::invalid_argument &)
        {
          thrown = true;
        }
        double op = (v1 + v2).norm();
        if(op < 1e-9) c.check(thrown, "rotation-forms", "opposite directions are not refused");
        if(op > 1e-7) c.check(!thrown, "rotation-forms", "directions that are not opposite are refused");
        if(thrown || op < 1e-4) return;
        isRot(M, "the rotation between two directions");
        sameV(M * v1, v2, 1e-7 + 1e-12 / op, "the direction reached");
        V3 cr = v1.cross(v2);
        sameV(M * cr, cr, 1e-7, "the axis between two directions");
        break;
      }
      case 7:
      {
        M3 E = rmat(s, 3, 3, g.chance(0.5) ? 1e-4 : 0.15), Mx = R * (M3::Identity() + E) * g.uni(0.5, 2.);
        M3 P = LIB(M3(kn::orthogonalizeRotationMatrix(Mx)));
        isRot(P, "a projected matrix");
        M3 S = P.transpose() * Mx;
        c.check((S - S.transpose()).norm() < 1e-9 && Eigen::SelfAdjointEigenSolver<M3>(M3((S + S.transpose()) / 2)).eigenvalues()(0) > 0, "rotation-forms",
                "the projected matrix is not the nearest rotation");
        break;
      }
      case 8:
      {
        V3 x = rvec(s + 1, 3, 5.);
        M3 S, S2;
        LIB((kn::skewSymmetric(u, S), 0));
        sameV(S * x, u.cross(x), 1e-12, "a cross product");
        sameV(LIB(M3(kn::skewSymmetric(u))) * x, u.cross(x), 1e-12, "a cross product");
        LIB((kn::skewSymmetric2(u, S2), 0));
        sameV(S2 * x, u.cross(V3(u.cross(x))), 1e-11, "a double cross product");
        sameV(LIB(M3(kn::skewSymmetric2(u))) * x, u.cross(V3(u.cross(x))), 1e-11, "a double cross product");
        break;
      }
      case 9: // homogeneous matrices
      {
        so::Matrix4 H = so::Matrix4::Identity();
        H.topLeftCorner<3, 3>() = R;
        H.topRightCorner<3, 1>() = u;
        so::Vector6 v = LIB(so::Vector6(kn::homogeneousMatrixToVector6(H)));
        sameV(v.head<3>(), u, 0, "the position of a homogeneous matrix");
        sameRot(qexp(v.tail<3>()).toRotationMatrix(), R, 1e-7, "the rotation of a homogeneous matrix");
        c.check(v.tail<3>().norm() < pi + 1e-9, "rotation-forms", "the rotation of a homogeneous matrix is %g long", v.tail<3>().norm());
        so::Matrix4 B = LIB(so::Matrix4(kn::vector6ToHomogeneousMatrix(v)));
        c.check((B - H).norm() < 1e-7, "rotation-forms", "a homogeneous matrix is not recovered");
        so::Matrix4 I = LIB(so::Matrix4(kn::invertHomoMatrix(H)));
        c.check((I * H - so::Matrix4::Identity()).norm() < 1e-9 && (I.row(3) - H.row(3)).norm() == 0, "rotation-forms", "the inverse of a homogeneous matrix");
        break;
      }
      case 10: // rotation vectors of any length
      {
        V3 v = u.normalized() * (g.chance(0.3) ? g.uni(0, 20) : g.chance(0.3) ? std::pow(10., g.uni(-18, -1)) : g.chance(0.2) ? pi * double(g.range(0, 5)) : g.uni(0, 3.1));
        if(g.chance(0.05)) v.setZero();
        M3 W = qexp(v).toRotationMatrix();
        V3 w = LIB(V3(kn::regulateOrientationVector(v)));
        sameRot(qexp(w).toRotationMatrix(), W, 1e-9, "a regulated rotation vector");
        c.check(w.norm() <= 1.5 * pi + 1e-9, "rotation-forms", "a regulated rotation vector is %g long", w.norm());
        if(v.norm() < 1.5 * pi - 1e-9) sameV(w, v, 0, "a rotation vector that needs no regulation");
        if(v.norm() > 1.5 * pi + 1e-9) c.check(w.norm() <= pi + 1e-9, "rotation-forms", "a regulated rotation vector is %g long", w.norm());
        sameRot(LIB(M3(kn::rotationVectorToRotationMatrix(v))), W, 1e-13, "the matrix of a rotation vector");
        sameRot(LIB(Q(kn::rotationVectorToQuaternion(v))).toRotationMatrix(), W, 1e-13, "the quaternion of a rotation vector");
        sameRot(LIB(Eigen::AngleAxisd(kn::rotationVectorToAngleAxis(v))).toRotationMatrix(), W, 1e-13, "the angle and axis of a rotation vector");
        if(v.norm() < 3.1)
        {
          double tl = 1e-14 + 1e-8 * std::min(1., v.norm());
          sameV(LIB(V3(kn::quaternionToRotationVector(qexp(v)))), v, tl, "the rotation vector of a quaternion");
          so::Vector4 co = qexp(v).coeffs();
          sameV(LIB(V3(kn::quaternionToRotationVector(co))), v, tl, "the rotation vector of four numbers");
        }
        sameRot(qexp(LIB(V3(kn::rotationMatrixToRotationVector(W)))).toRotationMatrix(), W, 1e-7, "the rotation vector of a matrix");
        break;
      }
      case 11: // finite differences
      {
        double dt = g.uni(0.001, 0.5);
        Q q1 = b.q, q2 = g.chance(0.5) ? d.q : Q(qexp(rvec(s + 1, 3, 0.01)) * b.q);
        if(g.chance(0.3)) q2.coeffs() = -q2.coeffs();
        V3 p1 = rvec(s + 2, 3), p2 = rvec(s + 3, 3);
        auto rot = [&](const V3 & w, const char * what) {
          sameRot(qexp(w * dt).toRotationMatrix() * q1.toRotationMatrix(), q2.toRotationMatrix(), 1e-6, what);
          c.check(w.norm() * dt <= pi + 1e-7, "rotation-forms", "%s: not the shortest way", what);
        };
        rot(LIB(V3(kn::derivateRotationFD(q1, q2, dt))), "the difference of quaternions");
        V3 o1 = qlog(q1), o2 = qlog(q2);
        rot(LIB(V3(kn::derivateRotationFD(o1, o2, dt))), "the difference of rotation vectors");
        so::Matrix4 H1 = so::Matrix4::Identity(), H2 = H1;
        H1.topLeftCorner<3, 3>() = q1.toRotationMatrix();
        H2.topLeftCorner<3, 3>() = q2.toRotationMatrix();
        H1.topRightCorner<3, 1>() = p1;
        H2.topRightCorner<3, 1>() = p2;
        so::Vector6 v = LIB(so::Vector6(kn::derivateHomogeneousMatrixFD(H1, H2, dt)));
        sameV(v.head<3>(), (p2 - p1) / dt, 1e-9 / dt, "the difference of positions");
        rot(v.tail<3>(), "the difference of homogeneous matrices");
        so::Vector6 a1, a2;
        a1 << p1, o1;
        a2 << p2, o2;
        v = LIB(so::Vector6(kn::derivatePoseThetaUFD(a1, a2, dt)));
        sameV(v.head<3>(), (p2 - p1) / dt, 1e-9 / dt, "the difference of positions");
        rot(v.tail<3>(), "the difference of poses");
        break;
      }
      case 12:
      {
        V3 w = rvec(s + 1, 3, 3), t = rvec(s + 2, 3, 3), o1, o2, o3, f = R * u;
        LIB((kn::fixedPointRotationToTranslation(R, w, t, u, o1, o2, o3), 0));
        sameV(o1, u - f, 1e-12, "the translation about a fixed point");
        sameV(o2, V3(-w.cross(f)), 1e-12, "the velocity about a fixed point");
        sameV(o3, V3(-w.cross(V3(w.cross(f))) - t.cross(f)), 1e-11, "the acceleration about a fixed point");
        break;
      }
      case 13:
      {
        V3 dl = u.normalized() * (g.chance(0.3) ? std::pow(10., g.uni(-17, -2)) : g.uni(0.01, 3.));
        M3 J1, J2, D;
        LIB((kn::derivateRotationMultiplicative(dl, J1, J2), 0));
        sameRot(J1, qexp(dl).toRotationMatrix(), 1e-12, "the derivative of a product of rotations");
        const double h = 1e-6;
        for(int x = 0; x < 3; ++x)
        {
          V3 e = V3::Unit(x) * h;
          D.col(x) = (qlog((qexp(dl + e) * qexp(dl).conjugate()).normalized()) - qlog((qexp(dl - e) * qexp(dl).conjugate()).normalized())) / (2 * h);
        }
        sameRot(J2, D, 1e-5, "the derivative with respect to an increment");
        break;
      }
      case 14: // trajectories
      {
        i64 n = g.range(1, 7), t0 = g.range(-5, 40);
        double dt = g.uni(0.001, 0.1);
        so::IndexedVectorArray po;
        std::vector<so::Vector> in;
        V3 p = u;
        Q q = b.q;
        for(i64 x = 0; x < n; ++x)
        {
          so::Vector v(6);
          v << p, qlog(q);
          in.push_back(v);
          LIB((po.setValue(v, t0 + x), 0));
          p += rvec(s + 10 + u64(x), 3, 0.1);
          q = (qexp(rvec(s + 30 + u64(x), 3, 0.3)) * q).normalized();
        }
        auto tr = LIB(so::IndexedVectorArray(kn::reconstructStateTrajectory(po, dt)));
        c.check(i64(tr.size()) == n && i64(tr.getFirstIndex()) == t0, "rotation-forms", "a trajectory of %lld poses from %lld gave %lld from %lld", (long long)n, (long long)t0,
                (long long)tr.size(), (long long)tr.getFirstIndex());
        std::vector<V3> lv(size_t(n), V3::Zero()), av(size_t(n), V3::Zero());
        for(size_t x = 0; x < size_t(n); ++x)
        {
          if(x + 1 < size_t(n))
          {
            lv[x] = (in[x + 1].head<3>() - in[x].head<3>()) / dt;
            av[x] = qlog((qexp(in[x + 1].tail<3>()) * qexp(in[x].tail<3>()).conjugate()).normalized()) / dt;
          }
        }
        for(size_t x = 0; x < size_t(n); ++x)
        {
          so::Vector v = LIB(so::Vector(tr[t0 + i64(x)]));
          typedef kn::indexes<kn::rotationVector> ix;
          c.check(v.size() == 18, "rotation-forms", "a state of %lld numbers", (long long)v.size());
          V3 la = x + 2 < size_t(n) ? V3((lv[x + 1] - lv[x]) / dt) : V3(V3::Zero()), aa = x + 2 < size_t(n) ? V3((av[x + 1] - av[x]) / dt) : V3(V3::Zero());
          sameV(v.segment<3>(ix::pos), in[x].head<3>(), 0, "a position of a trajectory");
          sameV(v.segment<3>(ix::ori), in[x].tail<3>(), 0, "an orientation of a trajectory");
          sameV(v.segment<3>(ix::linVel), lv[x], 1e-9 / dt, "a velocity of a trajectory");
          sameV(v.segment<3>(ix::angVel), av[x], 1e-7 / dt, "an angular velocity of a trajectory");
          sameV(v.segment<3>(ix::linAcc), la, 1e-9 / dt / dt, "an acceleration of a trajectory");
          sameV(v.segment<3>(ix::angAcc), aa, 1e-7 / dt / dt, "an angular acceleration of a trajectory");
        }
        break;
      }
      case 15: // the inverse of a whole state
      {
        typedef kn::indexes<kn::rotationVector> ix;
        so::Vector v = rvec(s, 18, 2.);
        v.segment<3>(ix::ori) = qlog(b.q);
        so::Vector w = LIB(so::Vector(kn::invertState(v)));
        c.check(w.size() == 18, "rotation-forms", "the inverse of a state has %lld numbers", (long long)w.size());
        M3 Rt = R.transpose();
        V3 p = v.segment<3>(ix::pos), l = v.segment<3>(ix::linVel), o = v.segment<3>(ix::angVel), la = v.segment<3>(ix::linAcc), t = v.segment<3>(ix::angAcc);
        sameV(w.segment<3>(ix::pos), -(Rt * p), 1e-7, "the inverse of a position");
        sameRot(qexp(w.segment<3>(ix::ori)).toRotationMatrix(), Rt, 1e-7, "the inverse of an orientation");
        sameV(w.segment<3>(ix::angVel), -(Rt * o), 1e-7, "the inverse of an angular velocity");
        sameV(w.segment<3>(ix::angAcc), -(Rt * t), 1e-7, "the inverse of an angular acceleration");
        sameV(w.segment<3>(ix::linVel), Rt * (o.cross(p) - l), 1e-7, "the inverse of a velocity");
        sameV(w.segment<3>(ix::linAcc), Rt * (2 * o.cross(l) - o.cross(V3(o.cross(p))) + t.cross(p) - la), 1e-7, "the inverse of an acceleration");
        break;
      }
      case 16: // recognising rotations
      {
        if(g.chance(0.2)) R = M3(Eigen::AngleAxisd(g.chance(0.5) ? pi / 2 : -pi / 2, V3::UnitX()) * Eigen::AngleAxisd(g.uni(-pi, pi), ez));
        c.check(LIB(kn::isRotationMatrix(R, 1e-9)), "rotation-forms", "a rotation is not recognised");
        M3 B = R;
        switch(g.range(0, 3))
        {
          case 0: B.col(int(g.range(0, 2))) *= -1; break;
          case 1: B = -B; break;
          case 2: B *= 1 + 1e-3; break;
          default: B(int(g.range(0, 2)), int(g.range(0, 2))) += 1e-3; break;
        }
        c.check(!LIB(kn::isRotationMatrix(B, 1e-9)), "rotation-forms", "a matrix that is not a rotation is taken for one");
        so::Quaternion qq(b.q);
        c.check(LIB(kn::scalarComponent(qq)) == qq.w() && LIB(V3(kn::vectorComponent(qq))) == V3(qq.vec()), "rotation-forms", "the components of a quaternion");
        c.check(LIB(Q(kn::zeroRotationQuaternion())).coeffs() == Q::Identity().coeffs(), "rotation-forms", "the zero rotation");
        double x = LIB(kn::randomAngle());
        c.check(std::fabs(x) <= pi, "rotation-forms", "a random angle is %g", x);
        c.check(std::fabs(LIB(Q(kn::randomRotationQuaternion())).norm() - 1) < 1e-9, "rotation-forms", "a random quaternion is not unit");
        break;
      }
      default: // integration of plain values
      {
        double dt = g.uni(0.001, 0.2);
        V3 p = u, v = rvec(s + 1, 3, 3), ac = rvec(s + 2, 3, 3), w = rvec(s + 3, 3, 3), t = rvec(s + 4, 3, 3);
        V3 p1 = p + v * dt, p2 = p1 + ac * dt * dt / 2, v2 = v + ac * dt, w2 = w + t * dt;
        M3 S1 = qexp(w * dt).toRotationMatrix() * R, S2 = qexp(w * dt + t * dt * dt / 2).toRotationMatrix() * R;
        i64 z = g.range(0, 9);
        V3 pp = p, vv = v, ww = w;
        M3 M = R;
        so::Quaternion qq(b.q);
        bool acc = false, lin = false, rot = false, quat = false;
        {
          Arm arm;
          switch(z)
          {
            case 0: kn::integrateKinematics(pp, v, dt), lin = true; break;
            case 1: kn::integrateKinematics(pp, vv, ac, dt), lin = acc = true; break;
            case 2: kn::integrateKinematics(M, w, dt), rot = true; break;
            case 3: kn::integrateKinematics(M, ww, t, dt), rot = acc = true; break;
            case 4: kn::integrateKinematics(qq, w, dt), rot = quat = true; break;
            case 5: kn::integrateKinematics(qq, ww, t, dt), rot = quat = acc = true; break;
            case 6: kn::integrateKinematics(pp, vv, ac, qq, ww, t, dt), lin = rot = quat = acc = true; break;
            case 7: kn::integrateKinematics(pp, vv, ac, M, ww, t, dt), lin = rot = acc = true; break;
            case 8: kn::integrateKinematics(pp, v, M, w, dt), lin = rot = true; break;
            default: kn::integrateKinematics(pp, v, qq, w, dt), lin = rot = quat = true; break;
          }
        }
        if(lin) sameV(pp, acc ? p2 : p1, 1e-12, "an integrated position");
        if(lin) sameV(vv, acc ? v2 : v, 1e-12, "an integrated velocity");
        if(rot) sameRot(quat ? qq.toRotationMatrix() : M, acc ? S2 : S1, 1e-9, "an integrated orientation");
        if(rot) sameV(ww, acc ? w2 : w, 1e-12, "an integrated angular velocity");
        break;
      }
    }
    c.probe("plain function on a frame");
  }
  void apply(const Op & o)
  {
    int i = ix(o.arg(0)), j = ix(o.arg(1)), k = ix(o.arg(2));
    u64 s = u64(o.arg(3));
    int fl = int(o.arg(4) & 63);
    Mod &a = m[i], b = m[j], d = m[k];
    double tol = 1e-9;
    const std::string & n = o.n;
    if(n == "part")
      setPart(i, o.arg(1), s);
    else if(n == "ori")
      setOri(i, o.arg(1), s);
    else if(n == "read") // fills the caches of the object
    {
      if(!a.ho) return;
      Arm g;
      switch(o.arg(1) % 11)
      {
        case 0: r[i]->orientation.toMatrix3(); break;
        case 1: r[i]->orientation.toQuaternion(); break;
        case 2: r[i]->orientation.synchronize(); break;
        case 3: r[i]->orientation.toRollPitchYaw(); break;
        case 4: r[i]->orientation.toAngleAxis(); break;
        case 5: r[i]->orientation.toRotationVector(); break;
        case 6: r[i]->orientation.toVector4(); break;
        case 7: // one of two synchronised representations is dropped
          r[i]->orientation.synchronize();
          r[i]->orientation.setMatrix(false);
          break;
        case 8:
          r[i]->orientation.synchronize();
          r[i]->orientation.setQuaternion(false);
          break;
        case 9: (void)static_cast<const so::Matrix3 &>(r[i]->orientation); break;
        default: (void)static_cast<const so::Quaternion &>(r[i]->orientation); break;
      }
    }
    else if(n == "forget")
    {
      Arm g;
      switch(o.arg(1) % 7)
      {
        case 0: r[i]->position.reset(), a.hp = false; break;
        case 1: r[i]->orientation.reset(), a.ho = false; break;
        case 2: r[i]->linVel.reset(), a.hv = false; break;
        case 3: r[i]->angVel.reset(), a.hw = false; break;
        case 4: r[i]->linAcc.reset(), a.ha = false; break;
        case 5: r[i]->angAcc.reset(), a.ht = false; break;
        default: r[i]->reset(), a = Mod(); break;
      }
    }
    else if(n == "zero")
    {
      {
        Arm g;
        if(o.arg(1) & 1)
          r[i]->setZero<so::Matrix3>(F::Byte(fl));
        else
          r[i]->setZero(F::Byte(fl));
      }
      if(fl & F::position) a.hp = true, a.p.setZero();
      if(fl & F::orientation) a.ho = true, a.q.setIdentity();
      if(fl & F::linVel) a.hv = true, a.v.setZero();
      if(fl & F::angVel) a.hw = true, a.w.setZero();
      if(fl & F::linAcc) a.ha = true, a.a.setZero();
      if(fl & F::angAcc) a.ht = true, a.t.setZero();
    }
    else if(n == "vector")
    {
      so::Vector z(3 * (bool(fl & 1) + bool(fl & 4) + bool(fl & 8) + bool(fl & 16) + bool(fl & 32)) + 4 * bool(fl & 2));
      i64 at = 0;
      auto seg = [&](int bit, bool & h, V3 & v, u64 q) {
        if(!(fl & bit)) return;
        h = true;
        v = rvec(mix64(s, q), 3, 3);
        z.segment<3>(at) = v;
        at += 3;
      };
      seg(F::position, a.hp, a.p, 1);
      if(fl & F::orientation)
      {
        a.ho = true;
        a.q = rquat(s, 3.1);
        z.segment<4>(at) = a.q.coeffs();
        at += 4;
      }
      seg(F::linVel, a.hv, a.v, 2);
      seg(F::angVel, a.hw, a.w, 3);
      seg(F::linAcc, a.ha, a.a, 4);
      seg(F::angAcc, a.ht, a.t, 5);
      if(o.arg(1) & 1)
      {
        LIB((r[i]->fromVector(z, F::Byte(fl)), 0));
      }
      else
      {
        Mod keep = a;
        keep.only(fl);
        a = keep;
        *r[i] = LIB(K(z, F::Byte(fl)));
      }
    }
    else if(n == "copy")
    {
      if(o.arg(2) & 1)
        r[i].reset(LIB(new K(*r[j])));
      else
        LIB((*r[i] = *r[j], 0));
      a = b;
    }
    else if(n == "integrate")
    {
      double dt = 1e-4 * double(1 + s % 1000);
      time += dt;
      tol *= scale(a);
      if(o.arg(1) % 3 == 0)
      {
        LIB((r[i]->integrate(dt), 0));
        if(a.hw)
        {
          V3 inc = a.w * dt + (a.ht ? V3(a.t * dt * dt / 2) : V3(V3::Zero()));
          if(a.ho) a.q = qexp(inc) * a.q;
          if(a.ht) a.w += a.t * dt;
        }
        if(a.hv)
        {
          if(a.hp) a.p += a.v * dt + (a.ha ? V3(a.a * dt * dt / 2) : V3(V3::Zero()));
          if(a.ha) a.v += a.a * dt;
        }
      }
      else
      {
        if(!a.ho) return;
        V3 inc = rvec(s, 3, s % 4 == 0 ? 1e-6 : 3.5);
        LIB((r[i]->orientation.integrate(inc), 0));
        a.q = qexp(inc) * a.q;
      }
    }
    else if(n == "update") // frame j carries what the sensors delivered this time
    {
      double dt = 1e-3 * double(1 + s % 50);
      Mod nb = b;
      K nv(*r[j]);
      if(i == j) return;
      tol *= (scale(a) + scale(b)) / (dt * dt);
      // opposite rotations have no unique difference
      if(a.ho && nb.ho && rotDist(a.q, nb.q) > 3.0) return;
      Fam lin{a.hp, a.hv, a.ha, a.v, a.a}, ang{a.ho, a.hw, a.ht, a.w, a.t};
      V3 p = a.p;
      Q q = a.q;
      bool fromNew = false, fromNewO = false;
      bool ok = updateFam(
          lin, nb.hp, nb.hv, nb.ha, nb.v, nb.a, fl & F::position, fl & F::linVel, fl & F::linAcc, dt, [&]() { return V3(nb.p - a.p); },
          [&](const V3 & inc) { p += inc; }, fromNew);
      ok = ok
           && updateFam(
               ang, nb.ho, nb.hw, nb.ht, nb.w, nb.t, fl & F::orientation, fl & F::angVel, fl & F::angAcc, dt,
               [&]() { return qlog((nb.q * a.q.conjugate()).normalized()); }, [&](const V3 & inc) { q = qexp(inc) * q; }, fromNewO);
      if(!ok) return;
      time += dt;
      if(nb.flags() != 63) c.fault("partial sensor data");
      if(nb.flags() == 0) c.fault("sensor data lost");
      LIB((r[i]->update(nv, dt, F::Byte(fl)), 0));
      a.hp = lin.hx;
      a.p = fromNew ? nb.p : p;
      a.hv = lin.hv;
      a.v = lin.v;
      a.ha = lin.ha;
      a.a = lin.a;
      a.ho = ang.hx;
      a.q = fromNewO ? nb.q : q;
      a.hw = ang.hv;
      a.w = ang.v;
      a.ht = ang.ha;
      a.t = ang.a;
    }
    else if(n == "compose")
    {
      // i := j * k, possibly with i among the operands
      bool noalias = o.arg(4) & 1;
      if(!b.ho || !(d.hp || d.ho)) return;
      if(noalias && (i == j || i == k)) return;
      tol *= scale(b) * (1 + d.mag());
      if(noalias)
        LIB((r[i]->setToProductNoAlias(*r[j], *r[k]), 0));
      else
      {
        if(s & 1)
          LIB((*r[i] = *r[j] * *r[k], 0));
        else
          LIB((*r[i] = K(*r[j], *r[k]), 0));
      }
      Mod e;
      M3 R = b.q.toRotationMatrix();
      if(b.hp && d.hp)
      {
        e.hp = true;
        e.p = b.p + R * d.p;
        if(b.hv && d.hv && b.hw)
        {
          e.hv = true;
          e.v = b.v + R * d.v + b.w.cross(R * d.p);
          if(b.ha && d.ha && b.ht)
          {
            e.ha = true;
            e.a = b.a + R * d.a + b.t.cross(R * d.p) + 2 * b.w.cross(R * d.v) + b.w.cross(b.w.cross(R * d.p));
          }
        }
      }
      if(d.ho)
      {
        e.ho = true;
        e.q = b.q * d.q;
        if(b.hw && d.hw)
        {
          e.hw = true;
          e.w = b.w + R * d.w;
          if(b.ht && d.ht)
          {
            e.ht = true;
            e.t = b.t + R * d.t + b.w.cross(R * d.w);
          }
        }
      }
      a = e;
    }
    else if(n == "invert")
    {
      if(!b.ho) return;
      tol *= scale(b) * (1 + b.mag());
      LIB((*r[i] = r[j]->getInverse(), 0));
      Mod e;
      M3 R = b.q.toRotationMatrix().transpose();
      e.ho = true;
      e.q = b.q.conjugate();
      if(b.hw)
      {
        e.hw = true;
        e.w = -(R * b.w);
        if(b.ht)
        {
          e.ht = true;
          e.t = -(R * b.t);
        }
      }
      if(b.hp)
      {
        e.hp = true;
        e.p = -(R * b.p);
        if(b.hv && b.hw)
        {
          e.hv = true;
          e.v = R * (b.w.cross(b.p) - b.v);
          if(b.ha && b.ht)
          {
            e.ha = true;
            e.a = R * (2 * b.w.cross(b.v) - b.w.cross(b.w.cross(b.p)) + b.t.cross(b.p) - b.a);
          }
        }
      }
      a = e;
    }
    else if(n == "rotate") // orientations alone: i := j * k, inverse, product of a product
    {
      if(!b.ho || !d.ho) return;
      Arm g;
      switch(o.arg(4) % 4)
      {
        case 0:
          if(s & 1)
            r[i]->orientation = r[j]->orientation * r[k]->orientation;
          else
            r[i]->orientation = O(r[j]->orientation, r[k]->orientation);
          a.q = b.q * d.q;
          break;
        case 1:
          r[i]->orientation = r[j]->orientation.inverse();
          a.q = b.q.conjugate();
          break;
        case 2:
          if(i == j || i == k) return;
          r[i]->orientation.setToProductNoAlias(r[j]->orientation, r[k]->orientation);
          a.q = b.q * d.q;
          break;
        default:
        {
          if(rotDist(b.q, d.q) > 3.0) return;
          V3 df = r[j]->orientation.differentiate(r[k]->orientation);
          Disarm x;
          c.check((df - qlog((d.q * b.q.conjugate()).normalized())).norm() < 1e-7, "orientation-difference",
                  "the difference of the orientations of frames %d and %d is wrong", j, k);
          return;
        }
      }
      a.ho = true;
    }
    else if(n == "spin") // a long motion in small steps
    {
      if(!a.ho) return;
      V3 inc = rvec(s, 3, 0.02);
      i64 reps = 50 + i64(s % 2000);
      {
        Arm g;
        for(i64 x = 0; x < reps; ++x) r[i]->orientation.integrate(inc);
      }
      a.q = (qexp(inc * double(reps)) * a.q).normalized();
      time += 0.005 * double(reps);
    }
    else if(n == "forms")
      forms(i, j, k, s, o.arg(4));
    else if(n == "fresh") // the object is rebuilt in memory with another content
    {
      alloc::setFill(s);
      r[i].reset();
      r[i].reset(LIB(new K()));
      a = Mod();
    }
    ++did;
    all(tol, n.c_str());
  }
};

Case gen(Rng & r, bool th)
{
  Case c;
  i64 n = r.range(5, th ? 160 : 60);
  double loss = r.uni(0, 0.6);
  // a robot: frames are filled, then time passes with partial data, composition and inversion
  for(int i = 0; i < 4; ++i)
    if(r.chance(0.8)) c.add("vector", {i, r.range(0, 1), 0, r.seed(), r.chance(loss) ? r.range(0, 63) : 63});
  for(i64 i = 0; i < n; ++i)
  {
    i64 a = r.range(0, 3), b = r.range(0, 3), d = r.range(0, 3), s = r.seed();
    switch(r.pick({2, 3, 4, 2, 1, 2, 1, 5, 5, 5, 3, 4, 0.5, 0.1, 6}))
    {
      case 0: c.add("part", {a, r.range(0, 4), 0, s, 0}); break;
      case 1: c.add("ori", {a, r.range(0, 16), 0, s, 0}); break;
      case 2: c.add("read", {a, r.range(0, 10), 0, s, 0}); break;
      case 3: c.add("forget", {a, r.range(0, 6), 0, s, 0}); break;
      case 4: c.add("zero", {a, r.range(0, 1), 0, s, r.range(0, 63)}); break;
      case 5: c.add("vector", {a, r.range(0, 1), 0, s, r.chance(loss) ? r.range(0, 63) : 63}); break;
      case 6: c.add("copy", {a, b, d, s, 0}); break;
      case 7: c.add("integrate", {a, r.range(0, 2), 0, s, 0}); break;
      case 8: c.add("update", {a, b, 0, s, r.chance(0.4) ? 63 : r.range(0, 63)}); break;
      case 9: c.add("compose", {a, b, d, s, r.range(0, 1)}); break;
      case 10: c.add("invert", {a, b, 0, s, 0}); break;
      case 11: c.add("rotate", {a, b, d, s, r.range(0, 3)}); break;
      case 14: c.add("forms", {a, b, d, s, r.range(0, 17)}); break;
      case 13: c.add("spin", {a, 0, 0, s, 0}); break;
      default: c.add("fresh", {a, 0, 0, s, 0}); break;
    }
  }
  return c;
}
void exec(const Case & k, Ctx & c)
{
  Rig rig(c);
  for(size_t i = 0; i < k.ops.size(); ++i)
  {
    c.opIndex = int(i);
    rig.apply(k.ops[i]);
    if(c.verbose) c.log("%s frame %lld known %d", k.ops[i].n.c_str(), (long long)k.ops[i].arg(0), rig.m[Rig::ix(k.ops[i].arg(0))].flags());
  }
  c.simTime += rig.time;
  c.nontrivial = rig.did > 3;
}
Reg rC20({"C20", "frames", 100000, 1500000,
          "random histories of settings, losses of parts, reads in every representation, integrations, updates from partial sensor data, compositions, "
          "inversions, copies and rebuilds of four frames, compared after every operation with a model of what is known and its value; non-trivial: more "
          "than three operations took place; distinct: different op list",
          "Orientation, Kinematics, CheckedItem, rotation conversions", "none", gen, exec});
} // namespace
} // namespace sim
