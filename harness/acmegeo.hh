// Shared pieces of the acme harnesses: entities given by small lattice
// coordinates, an independent geometric oracle for their common points, and
// construction of the library's entities under rigid motions and scalings.
// Oracle quantities are rationals (or square roots of rationals) with small
// numerators and denominators, so anything below EPS is an exact zero.
#ifndef ACMEGEO_HH
#define ACMEGEO_HH
#include "common.hh"
#include "acme.hh"
namespace geo
{
  static const double EPS = 1e-9, INF = std::numeric_limits<double>::infinity();
  // kind: P point a; L line, R ray (origin a, direction b); S segment a-b; N plane (origin a, normal b);
  // T triangle a b c; D disk (centre a, normal b, radius r); B ball (centre a, radius r)
  struct Ent { char k; P3 a, b, c; double r; };
  inline std::string str(Ent const & e)
  {
    switch (e.k) {
      case 'P': return "point" + ::str(e.a);
      case 'L': return "line(" + ::str(e.a) + " dir " + ::str(e.b) + ")";
      case 'R': return "ray(" + ::str(e.a) + " dir " + ::str(e.b) + ")";
      case 'S': return "segment(" + ::str(e.a) + " " + ::str(e.b) + ")";
      case 'N': return "plane(" + ::str(e.a) + " normal " + ::str(e.b) + ")";
      case 'T': return "triangle(" + ::str(e.a) + " " + ::str(e.b) + " " + ::str(e.c) + ")";
      case 'D': return mc::fmt("disk(r %g ", e.r) + ::str(e.a) + " normal " + ::str(e.b) + ")";
      case 'B': return mc::fmt("ball(r %g ", e.r) + ::str(e.a) + ")";
    }
    return "?";
  }
  inline bool linear(Ent const & e) { return e.k == 'L' || e.k == 'R' || e.k == 'S'; }
  inline bool flat(Ent const & e) { return e.k == 'N' || e.k == 'T' || e.k == 'D'; }
  inline P3 dir(Ent const & e) { return e.k == 'S' ? e.b - e.a : e.b; }
  inline P3 nrm(Ent const & e) { return e.k == 'T' ? cross(e.b - e.a, e.c - e.a) : e.b; }
  inline bool zero(double v) { return std::abs(v) < EPS; }
  inline bool zero(P3 const & v) { return zero(v[0]) && zero(v[1]) && zero(v[2]); }
  inline void range(Ent const & e, double & lo, double & hi) { lo = e.k == 'L' ? -INF : 0; hi = e.k == 'S' ? 1 : INF; }
  // barycentric-free containment of a point in the plane of the triangle: signed areas
  inline bool contains(Ent const & e, P3 const & p)
  {
    switch (e.k) {
      case 'P': return zero(p - e.a);
      case 'L': case 'R': case 'S': { P3 d = dir(e); if (!zero(cross(p - e.a, d))) return false; double t = dot(p - e.a, d) / dot(d, d), lo, hi; range(e, lo, hi); return t > lo - EPS && t < hi + EPS; }
      case 'N': return zero(dot(p - e.a, e.b));
      case 'T': { P3 n = nrm(e); if (!zero(dot(p - e.a, n))) return false; P3 v[3] = {e.a, e.b, e.c}; for (int i = 0; i < 3; ++i) if (dot(cross(v[(i+1)%3] - v[i], p - v[i]), n) < -EPS) return false; return true; }
      case 'D': return zero(dot(p - e.a, e.b)) && norm(p - e.a) < e.r + EPS;
      case 'B': return norm(p - e.a) < e.r + EPS;
    }
    return false;
  }
  // is p on the boundary of the entity (relative to its own dimension)
  inline bool border(Ent const & e, P3 const & p)
  {
    switch (e.k) {
      case 'R': return zero(p - e.a);
      case 'S': return zero(p - e.a) || zero(p - e.b);
      case 'T': { P3 n = nrm(e), v[3] = {e.a, e.b, e.c}; for (int i = 0; i < 3; ++i) if (zero(dot(cross(v[(i+1)%3] - v[i], p - v[i]), n))) return true; return false; }
      case 'D': case 'B': return zero(norm(p - e.a) - e.r);
    }
    return false;
  }
  // parameters of O + t*D inside e, where the line lies in e's plane (T, D, N), is collinear with e (L, R, S), or e is a ball
  inline void clip(P3 const & O, P3 const & D, Ent const & e, double & lo, double & hi)
  {
    lo = -INF; hi = INF;
    double dd = dot(D, D);
    if (e.k == 'T') {
      P3 n = nrm(e), v[3] = {e.a, e.b, e.c};
      for (int i = 0; i < 3; ++i) { // dot(cross(edge, O + tD - v), n) >= 0
        P3 ed = v[(i+1)%3] - v[i]; double c0 = dot(cross(ed, O - v[i]), n), c1 = dot(cross(ed, D), n);
        if (zero(c1)) { if (c0 < -EPS) { lo = INF; hi = -INF; } }
        else if (c1 > 0) lo = std::max(lo, -c0 / c1); else hi = std::min(hi, -c0 / c1);
      }
    } else if (e.k == 'D' || e.k == 'B') {
      P3 q = O - e.a; double b = dot(q, D), c = dot(q, q) - e.r * e.r, disc = b * b - dd * c;
      if (disc < -EPS) { lo = INF; hi = -INF; } else { double s = std::sqrt(std::max(0.0, disc)); lo = (-b - s) / dd; hi = (-b + s) / dd; }
    } else if (linear(e)) {
      double l, h; range(e, l, h); P3 d = dir(e); double k = dot(d, D) / dd, o = dot(e.a - O, D) / dd;
      double x = std::isinf(l) ? (k > 0 ? -INF : INF) : o + l * k, y = std::isinf(h) ? (k > 0 ? INF : -INF) : o + h * k;
      lo = std::min(x, y); hi = std::max(x, y);
    }
  }
  // the common set of two entities
  struct Sh {
    enum { EMPTY, POINT, LINEAR, REGION, OTHER } k = EMPTY;
    P3 p;                 // POINT, or origin for LINEAR
    P3 d; double lo, hi;  // LINEAR: p + t*d, t in [lo,hi]
    Ent e;                // REGION that equals one entity (k = REGION), OTHER: undescribed region
  };
  inline Sh linearSet(P3 const & O, P3 const & D, double lo, double hi)
  {
    Sh s; 
    if (!(lo <= hi + EPS) ) return s;
    if (std::isfinite(lo) && std::isfinite(hi) && (hi - lo) * norm(D) < 1e-6) { s.k = Sh::POINT; s.p = O + 0.5 * (lo + hi) * D; return s; }
    s.k = Sh::LINEAR; s.p = O; s.d = D; s.lo = lo; s.hi = hi; return s;
  }
  inline Sh meet(Ent const & x, Ent const & y)
  {
    Sh s;
    auto ord = [](char c) { return std::string("PLRSNTDB").find(c); };
    if (ord(x.k) > ord(y.k)) return meet(y, x);
    if (x.k == 'P') { if (contains(y, x.a)) { s.k = Sh::POINT; s.p = x.a; } return s; }
    if (linear(x)) {
      P3 O = x.a, D = dir(x); double lo, hi; range(x, lo, hi);
      if (linear(y)) {
        P3 E = dir(y), n = cross(D, E);
        if (zero(n)) { if (!zero(cross(y.a - O, D))) return s; double l, h; clip(O, D, y, l, h); return linearSet(O, D, std::max(lo, l), std::min(hi, h)); }
        if (!zero(dot(y.a - O, n))) return s;
        double t = dot(cross(y.a - O, E), n) / dot(n, n), u = dot(cross(y.a - O, D), n) / dot(n, n), l, h; range(y, l, h);
        if (t > lo - EPS && t < hi + EPS && u > l - EPS && u < h + EPS) { s.k = Sh::POINT; s.p = O + t * D; }
        return s;
      }
      if (flat(y)) {
        P3 n = nrm(y); double den = dot(n, D), num = dot(n, y.a - O);
        if (zero(den)) { if (!zero(num)) return s; double l, h; clip(O, D, y, l, h); return linearSet(O, D, std::max(lo, l), std::min(hi, h)); }
        double t = num / den; P3 p = O + t * D;
        if (t > lo - EPS && t < hi + EPS && contains(y, p)) { s.k = Sh::POINT; s.p = p; }
        return s;
      }
      double l, h; clip(O, D, y, l, h); return linearSet(O, D, std::max(lo, l), std::min(hi, h));
    }
    if (flat(x) && flat(y)) {
      P3 n = nrm(x), m = nrm(y), D = cross(n, m);
      if (zero(D)) {
        if (!zero(dot(y.a - x.a, n))) return s;
        if (x.k == 'N') { s.k = Sh::REGION; s.e = y; return s; }
        s.k = Sh::OTHER; return s; // decided by the caller where needed
      }
      double d0 = dot(n, x.a), d1 = dot(m, y.a), dd = dot(D, D);
      P3 O = (1 / dd) * (d0 * cross(m, D) + d1 * cross(D, n));
      double l0, h0, l1, h1; clip(O, D, x, l0, h0); clip(O, D, y, l1, h1);
      return linearSet(O, D, std::max(l0, l1), std::min(h0, h1));
    }
    if (x.k == 'N' && y.k == 'B') {
      double nn = norm(x.b), q = dot(y.a - x.a, x.b) / nn;
      if (std::abs(q) > y.r + EPS) return s;
      P3 c = y.a - (q / nn) * x.b; double rr = std::sqrt(std::max(0.0, y.r * y.r - q * q));
      if (rr < 1e-6) { s.k = Sh::POINT; s.p = c; return s; }
      s.k = Sh::REGION; s.e = {'D', c, x.b, {0, 0, 0}, rr}; return s;
    }
    s.k = Sh::OTHER; return s;
  }
  inline std::string str(Sh const & s)
  {
    switch (s.k) { case Sh::EMPTY: return "nothing"; case Sh::POINT: return "point " + ::str(s.p);
      case Sh::LINEAR: return mc::fmt("part [%g,%g] of ", s.lo, s.hi) + ::str(s.p) + " + t" + ::str(s.d); case Sh::REGION: return str(s.e); default: return "region"; }
  }
  // similarity x -> o + s*R*x applied to the lattice, and a factor for directions and normals
  struct Map { M3 R; double s, f; P3 o; char const * name; };
  inline std::vector<Map> const & maps()
  {
    static std::vector<Map> m;
    if (m.empty()) {
      M3 I = {P3{1,0,0}, P3{0,1,0}, P3{0,0,1}};
      m.push_back({I, 1, 1, {0,0,0}, "identity"});
      m.push_back({rot(Pose{0,0,0,0.7,-1.1,0.4}), 1, 0.05, {0.3,-0.2,0.6}, "rotated"});
      m.push_back({rot(Pose{0,0,0,-2.3,0.35,2.9}), 1.0/128, 20, {-1.2,0.4,0.1}, "small"});
      m.push_back({rot(Pose{0,0,0,1.9,0.8,-0.6}), 40, -1, {100,-30,20}, "large"});
    }
    return m;
  }
  inline P3 pt(Map const & m, P3 const & p) { return m.o + m.s * mul(m.R, p); }
  inline P3 vc(Map const & m, P3 const & v) { return m.f * mul(m.R, v); }       // plane normals (any sign)
  inline P3 dc(Map const & m, P3 const & v) { return std::abs(m.f) * mul(m.R, v); } // directions
  inline acme::point  mkP(Map const & m, Ent const & e) { return ap(pt(m, e.a)); }
  inline acme::line   mkL(Map const & m, Ent const & e) { return acme::line(ap(pt(m, e.a)), av(dc(m, e.b))); }
  inline acme::ray    mkR(Map const & m, Ent const & e) { return acme::ray(ap(pt(m, e.a)), av(dc(m, e.b))); }
  inline acme::segment mkS(Map const & m, Ent const & e) { return acme::segment(ap(pt(m, e.a)), ap(pt(m, e.b))); }
  inline acme::plane  mkN(Map const & m, Ent const & e) { return acme::plane(ap(pt(m, e.a)), av(vc(m, e.b))); }
  inline acme::triangle mkT(Map const & m, Ent const & e) { return acme::triangle(ap(pt(m, e.a)), ap(pt(m, e.b)), ap(pt(m, e.c))); }
  inline acme::disk   mkD(Map const & m, Ent const & e) { return acme::disk(e.r * m.s, ap(pt(m, e.a)), av(vc(m, e.b))); }
  inline acme::ball   mkB(Map const & m, Ent const & e) { return acme::ball(e.r * m.s, ap(pt(m, e.a))); }
  inline std::shared_ptr<acme::entity> mkE(Map const & m, Ent const & e)
  {
    switch (e.k) {
      case 'P': return std::make_shared<acme::point>(mkP(m, e)); case 'L': return std::make_shared<acme::line>(mkL(m, e));
      case 'R': return std::make_shared<acme::ray>(mkR(m, e)); case 'S': return std::make_shared<acme::segment>(mkS(m, e));
      case 'N': return std::make_shared<acme::plane>(mkN(m, e)); case 'T': return std::make_shared<acme::triangle>(mkT(m, e));
      case 'D': return std::make_shared<acme::disk>(mkD(m, e)); default: return std::make_shared<acme::ball>(mkB(m, e));
    }
  }
  // comparisons of library results (mapped) with oracle sets (lattice)
  inline double tol(Map const & m) { return 1e-6 * m.s; }
  inline bool at(Map const & m, P3 const & got, P3 const & want) { return finite(got) && norm(got - pt(m, want)) <= tol(m); }
  inline bool isPart(Map const & m, acme::segment const & g, Sh const & s)
  {
    if (s.k == Sh::POINT) return at(m, p3(g.vertex(0)), s.p) && at(m, p3(g.vertex(1)), s.p);
    if (s.k != Sh::LINEAR || std::isinf(s.lo) || std::isinf(s.hi)) return false;
    P3 a = s.p + s.lo * s.d, b = s.p + s.hi * s.d;
    return (at(m, p3(g.vertex(0)), a) && at(m, p3(g.vertex(1)), b)) || (at(m, p3(g.vertex(0)), b) && at(m, p3(g.vertex(1)), a));
  }
  // result ray / line equals the linear set
  template <class R> inline bool isDirected(Map const & m, R const & g, Sh const & s, bool ray)
  {
    if (s.k != Sh::LINEAR) return false;
    P3 o = p3(g.origin()), d = p3(g.direction()), w = mul(m.R, s.d);
    if (!finite(o) || !finite(d) || norm(d) == 0 || norm(cross(unit(d), unit(w))) > 1e-6) return false;
    if (ray) {
      bool up = std::isfinite(s.lo) && std::isinf(s.hi), dn = std::isinf(s.lo) && std::isfinite(s.hi);
      if (!up && !dn) return false;
      return at(m, o, s.p + (up ? s.lo : s.hi) * s.d) && (dot(d, w) > 0) == up;
    }
    if (!std::isinf(s.lo) || !std::isinf(s.hi)) return false;
    P3 q = o - pt(m, s.p); return norm(cross(q, unit(w))) <= tol(m) + 1e-9 * norm(q);
  }
  // leaves v in the stack memory the next call will use, so that a result built on unset variables shows
  __attribute__((noinline)) inline void fillStack(double v) { volatile double a[2048]; for (int i = 0; i < 2048; ++i) a[i] = v; }
  inline std::string str(acme::segment const & g) { return "segment " + ::str(p3(g.vertex(0))) + "-" + ::str(p3(g.vertex(1))); }
  // lattices
  inline std::vector<P3> cube(int lo, int hi) { std::vector<P3> v; for (int x = lo; x <= hi; ++x) for (int y = lo; y <= hi; ++y) for (int z = lo; z <= hi; ++z) v.push_back({(double)x, (double)y, (double)z}); return v; }
  inline std::vector<P3> dirs(int n) { std::vector<P3> v; for (auto const & d : cube(-n, n)) if (!zero(d)) v.push_back(d); return v; }
  inline std::vector<Ent> triMenu(bool th)
  {
    std::vector<Ent> v;
    auto T = [&](P3 a, P3 b, P3 c) { v.push_back({'T', a, b, c, 0}); };
    T({0,0,0}, {2,0,0}, {0,2,0}); T({0,0,0}, {1,2,0}, {2,0,0}); T({0,0,0}, {0,2,1}, {2,0,1}); T({0,0,1}, {2,2,1}, {0,2,1}); T({0,0,0}, {0,0,2}, {0,1,0});
    T({1,0,0}, {0,1,0}, {0,0,1}); T({2,0,0}, {0,2,0}, {0,0,2}); T({0,0,0}, {2,1,0}, {2,1,2}); T({0,0,0}, {1,1,1}, {2,0,0}); T({0,0,0}, {2,2,1}, {1,2,2});
    T({-1,0,0}, {2,0,0}, {0,0,1}); T({0,0,0}, {2,2,2}, {2,2,0}); T({1,1,1}, {2,1,1}, {1,2,1}); T({-1,-1,0}, {2,-1,0}, {0,2,0});
    if (th) { T({0,0,0}, {2,0,1}, {0,1,2}); T({2,2,2}, {0,1,0}, {1,0,0}); T({-1,-1,-1}, {2,2,1}, {0,2,-1}); T({0,0,0}, {1,0,0}, {0,0,2}); T({-1,2,0}, {2,-1,0}, {2,2,1}); T({0,-1,2}, {2,1,0}, {-1,2,0}); }
    return v;
  }
  inline std::vector<Ent> diskMenu(bool th)
  {
    std::vector<Ent> v;
    auto D = [&](double r, P3 c, P3 n) { v.push_back({'D', c, n, {0,0,0}, r}); };
    D(1, {0,0,0}, {0,0,1}); D(1.5, {1,0,0}, {0,0,-2}); D(1, {0,1,0}, {1,0,0}); D(1.25, {0,0,1}, {0,1,0}); D(2, {0,0,0}, {1,1,0}); D(1.5, {1,1,1}, {1,1,1}); D(1, {0,1,1}, {0,1,2}); D(2.5, {0,0,0}, {1,-1,2});
    if (th) { D(0.5, {1,1,0}, {0,0,1}); D(3, {-1,0,2}, {2,1,0}); D(1.25, {1,0,0}, {2,2,1}); D(0.75, {0,0,0}, {-1,2,2}); }
    return v;
  }
  inline std::vector<Ent> planeMenu(bool th)
  {
    std::vector<Ent> v;
    auto N = [&](P3 c, P3 n) { v.push_back({'N', c, n, {0,0,0}, 0}); };
    N({0,0,0}, {0,0,1}); N({1,0,0}, {2,0,0}); N({0,1,0}, {0,-1,0}); N({0,0,1}, {0,1,1}); N({0,0,0}, {1,1,1}); N({1,1,1}, {1,2,-1}); N({0,2,0}, {-2,1,0}); N({-1,0,1}, {2,1,2});
    if (th) { N({0,0,0.5}, {0,0,3}); N({1,0,1}, {1,0,1}); N({2,1,0}, {1,-2,2}); }
    return v;
  }
  inline std::vector<Ent> ballMenu(bool th)
  {
    std::vector<Ent> v;
    auto B = [&](double r, P3 c) { v.push_back({'B', c, {0,0,0}, {0,0,0}, r}); };
    B(1, {0,0,0}); B(1.5, {1,0,0}); B(0.75, {0,1,1}); B(2.5, {0,0,1}); 
    if (th) { B(2, {1,1,1}); B(1.25, {-1,0,0}); B(0.5, {2,2,2}); }
    return v;
  }
}
#endif
