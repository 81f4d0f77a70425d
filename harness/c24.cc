// C24: line-like pairs, points and balls.
#include "acmegeo.hh"
using namespace geo;
struct Lib {
  acme::line l; acme::ray r; acme::segment s;
  Lib(Map const & m, Ent const & e) { if (e.k == 'L') l = mkL(m, e); else if (e.k == 'R') r = mkR(m, e); else s = mkS(m, e); }
};
// x before y in the order L R S
static bool point(Ent const & x, Lib const & X, Ent const & y, Lib const & Y, acme::point & p)
{
  if (x.k == 'L') return y.k == 'L' ? acme::Intersection(X.l, Y.l, p) : y.k == 'R' ? acme::Intersection(X.l, Y.r, p) : acme::Intersection(X.l, Y.s, p);
  if (x.k == 'R') return y.k == 'R' ? acme::Intersection(X.r, Y.r, p) : acme::Intersection(X.r, Y.s, p);
  return acme::Intersection(X.s, Y.s, p);
}
static void pair(Map const & m, Ent const & x, Lib const & X, Ent const & y, Lib const & Y)
{
  Sh s = meet(x, y); bool par = zero(cross(dir(x), dir(y))), col = par && zero(cross(y.a - x.a, dir(x)));
  auto w = [&] { return "(" + str(x) + ", " + str(y) + ") [" + m.name + "], common set " + str(s); };
  std::string err;
  try {
    acme::point p(7, 7, 7); bool r = point(x, X, y, Y, p);
    if (!col) MC_OK(r == (s.k == Sh::POINT), "point-decision", "%s: point reported %d", w().c_str(), r);
    if (r && s.k == Sh::POINT) MC_OK(at(m, p3(p), s.p), "point-place", "%s: gives %s", w().c_str(), str(p3(p)).c_str());
    if (s.k == Sh::LINEAR) MC_OK(!r, "point-decision", "%s: a point is reported", w().c_str());
    // parts: line, ray or segment results
    bool inf0 = s.k == Sh::LINEAR && std::isinf(s.lo), inf1 = s.k == Sh::LINEAR && std::isinf(s.hi);
    bool touch = col && s.k == Sh::POINT;
    auto seg = [&](bool q, acme::segment const & g) {
      if (touch) { if (q) MC_OK(isPart(m, g, s), "part-place", "%s: gives %s", w().c_str(), str(g).c_str()); return; }
      bool want = s.k == Sh::LINEAR && !inf0 && !inf1;
      MC_OK(q == want, "part-decision", "%s: segment reported %d", w().c_str(), q);
      if (q && want) MC_OK(isPart(m, g, s), "part-place", "%s: gives %s", w().c_str(), str(g).c_str());
    };
    auto ray = [&](bool q, acme::ray const & g) {
      bool want = s.k == Sh::LINEAR && (inf0 != inf1);
      MC_OK(q == want, "part-decision", "%s: ray reported %d", w().c_str(), q);
      if (q && want) MC_OK(isDirected(m, g, s, true), "part-place", "%s: gives ray %s dir %s", w().c_str(), str(p3(g.origin())).c_str(), str(p3(g.direction())).c_str());
    };
    acme::segment g(acme::point(7, 7, 7), acme::point(8, 8, 8)); acme::ray h(acme::point(7, 7, 7), acme::vec3(1, 2, 3));
    if (x.k == 'L' && y.k == 'L') {
      acme::line k(acme::point(7, 7, 7), acme::vec3(1, 2, 3)); bool q = acme::Intersection(X.l, Y.l, k), want = s.k == Sh::LINEAR;
      MC_OK(q == want, "part-decision", "%s: line reported %d", w().c_str(), q);
      if (q && want) MC_OK(isDirected(m, k, s, false), "part-place", "%s: gives line %s dir %s", w().c_str(), str(p3(k.origin())).c_str(), str(p3(k.direction())).c_str());
    } else if (x.k == 'L' && y.k == 'R') { bool q = acme::Intersection(X.l, Y.r, h); ray(q, h); }
    else if (x.k == 'L') { bool q = acme::Intersection(X.l, Y.s, g); seg(q, g); }
    else if (x.k == 'R' && y.k == 'R') { bool q = acme::Intersection(X.r, Y.r, h); ray(q, h); bool t = acme::Intersection(X.r, Y.r, g); seg(t, g); }
    else if (x.k == 'R') { bool q = acme::Intersection(X.r, Y.s, g); seg(q, g); }
    else { bool q = acme::Intersection(X.s, Y.s, g); seg(q, g); }
    mc::outcome(mc::mix(r + 2 * s.k + 16 * col, x.k * 256 + y.k));
  } catch (std::exception const & e) { err = e.what(); }
  MC_OK(err.empty(), "throws", "%s: throws %s", w().c_str(), err.c_str());
  if (s.k) mc::nontrivial();
}
template <class X> static void pts(Map const & m, Ent const & e, X const & x, std::vector<P3> const & P)
{
  for (auto const & q : P) {
    if (e.k == 'D' && zero(dot(q - e.a, e.b)) && border(e, q)) continue;
    bool want = contains(e, q); acme::point g(7, 7, 7); Ent pe = {'P', q, {}, {}, 0};
    bool r = acme::Intersection(mkP(m, pe), x, g);
    MC_OK(r == want, "point-in", "point %s and %s [%s]: reported %d", str(q).c_str(), str(e).c_str(), m.name, r);
    if (r && want) { MC_OK(at(m, p3(g), q), "point-in-place", "point %s and %s [%s]: gives %s", str(q).c_str(), str(e).c_str(), m.name, str(p3(g)).c_str()); mc::nontrivial(); }
  }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto O = cube(-2, 2), E = dirs(2);
  std::vector<P3> D = dirs(1); for (P3 d : {P3{2,0,0}, P3{0,2,-2}, P3{1,2,0}, P3{2,-1,2}}) D.push_back(d);
  if (th) { O = cube(-3, 3); D = dirs(2); }
  for (auto const & d : D) for (auto const & m : maps()) for (int k = 0; k < 3; ++k)
    for (auto const & o : O) {
      mc::kase([&] {
        Ent x = {"LRS"[k], {0, 0, 0}, d, {}, 0}; Lib X(m, x);
        for (auto const & e : E) for (int j = k; j < 3; ++j) {
          Ent y = {"LRS"[j], o, e, {}, 0}; if (j == 2) y.b = o + e;
          Lib Y(m, y); pair(m, x, X, y, Y); if (k == j) pair(m, y, Y, x, X);
        }
      }, [&] { return std::string(1, "LRS"[k]) + " from origin along " + ::str(d) + " against all from " + ::str(o) + " [" + m.name + "]"; });
    }
  // points
  std::vector<P3> P = cube(-2, 3); { size_t n = P.size(); for (size_t i = 0; i < n; ++i) P.push_back(0.5 * P[i]); }
  if (th) { size_t n = P.size(); for (size_t i = 0; i < n; ++i) P.push_back(1.5 * P[i]); }
  for (auto const & m : maps()) {
    for (auto const & o : cube(-1, 1)) for (auto const & d : D) for (int k = 0; k < 3; ++k)
      mc::kase([&] { Ent x = {"LRS"[k], o, k == 2 ? o + d : d, {}, 0}; if (k == 0) pts(m, x, mkL(m, x), P); else if (k == 1) pts(m, x, mkR(m, x), P); else pts(m, x, mkS(m, x), P); },
        [&] { return mc::fmt("points and %c %s dir ", "LRS"[k], ::str(o).c_str()) + ::str(d) + " [" + m.name + "]"; });
    for (auto const & e : triMenu(true)) mc::kase([&] { pts(m, e, mkT(m, e), P); }, [&] { return "points and " + str(e) + " [" + m.name + "]"; });
    for (auto const & e : diskMenu(true)) mc::kase([&] { pts(m, e, mkD(m, e), P); }, [&] { return "points and " + str(e) + " [" + m.name + "]"; });
    for (auto const & e : planeMenu(true)) mc::kase([&] { pts(m, e, mkN(m, e), P); }, [&] { return "points and " + str(e) + " [" + m.name + "]"; });
    for (auto const & q : cube(-1, 1)) mc::kase([&] { Ent e = {'P', q, {}, {}, 0}; pts(m, e, mkP(m, e), P); }, [&] { return "points and point " + ::str(q) + " [" + m.name + "]"; });
  }
  // balls
  for (auto const & b : ballMenu(true)) for (auto const & m : maps()) {
    for (auto const & o : cube(-2, 3))
      mc::kase([&] {
        acme::ball B = mkB(m, b);
        for (auto const & d : E) for (int k = 0; k < 3; ++k) {
          Ent x = {"LRS"[k], o, k == 2 ? o + d : d, {}, 0}; Sh s = meet(x, b); Lib X(m, x);
          acme::segment g(acme::point(7, 7, 7), acme::point(8, 8, 8));
          bool r = k == 0 ? acme::Intersection(X.l, B, g) : k == 1 ? acme::Intersection(X.r, B, g) : acme::Intersection(X.s, B, g);
          if (s.k != Sh::POINT) MC_OK(r == (s.k == Sh::LINEAR), "ball-decision", "%s and %s [%s], common set %s: reported %d", str(x).c_str(), str(b).c_str(), m.name, str(s).c_str(), r);
          if (r && s.k != Sh::EMPTY) MC_OK(isPart(m, g, s), "ball-place", "%s and %s [%s], common set %s: gives %s", str(x).c_str(), str(b).c_str(), m.name, str(s).c_str(), str(g).c_str());
          if (s.k) mc::nontrivial();
          mc::outcome(mc::mix(r + 2 * s.k, x.k));
        }
      }, [&] { return str(b) + " against all from " + ::str(o) + " [" + m.name + "]"; });
    for (auto const & o : cube(-2, 2))
      mc::kase([&] {
        acme::ball B = mkB(m, b);
        for (auto const & d : E) {
          Ent n = {'N', o, d, {}, 0}; Sh s = meet(n, b); acme::disk g(7, acme::point(7, 7, 7), acme::vec3(1, 2, 3));
          bool r = acme::Intersection(mkN(m, n), B, g);
          if (s.k != Sh::POINT) MC_OK(r == (s.k == Sh::REGION), "plane-ball-decision", "%s and %s [%s], common set %s: reported %d", str(n).c_str(), str(b).c_str(), m.name, str(s).c_str(), r);
          if (r && s.k == Sh::REGION) { P3 c = p3(g.center()), a = p3(g.normal()), u = mul(m.R, unit(d));
            MC_OK(at(m, c, s.e.a) && std::abs(g.radius() - s.e.r * m.s) <= tol(m) && norm(cross(a, u)) < 1e-6 * norm(a) && norm(a) > 0, "plane-ball-place", "%s and %s [%s], common set %s: gives disk r %g %s normal %s", str(n).c_str(), str(b).c_str(), m.name, str(s).c_str(), (double)g.radius(), str(c).c_str(), str(a).c_str()); }
          if (s.k) mc::nontrivial();
        }
      }, [&] { return str(b) + " against all planes through " + ::str(o) + " [" + m.name + "]"; });
  }
  return mc::finish();
}
