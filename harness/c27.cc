// C27: containment, measures, bounding boxes and kinds of the acme entities.
#include "acmegeo.hh"
using namespace geo;
static const double PI_ = 3.14159265358979323846;
static bool closeTo(double a, double b, double scale) { return std::isfinite(a) && std::abs(a - b) <= 1e-9 * std::max(std::abs(b), scale); }
static bool same(P3 const & a, P3 const & b) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static bool nearP(acme::vec3 const & a, P3 const & b, double scale) { P3 q = {a[0], a[1], a[2]}; return finite(q) && norm(q - b) <= 1e-9 * std::max(norm(b), scale); }
static bool inside(Map const & m, Ent const & e, acme::point const & q)
{
  switch (e.k) {
    case 'L': return mkL(m, e).isInside(q); case 'R': return mkR(m, e).isInside(q); case 'S': return mkS(m, e).isInside(q);
    case 'N': return mkN(m, e).isInside(q); case 'T': return mkT(m, e).isInside(q); case 'D': return mkD(m, e).isInside(q);
    default: return mkB(m, e).isInside(q);
  }
}
// lattice points of the entity itself, so that containment is not only refused
static std::vector<P3> own(Ent const & e)
{
  std::vector<P3> v;
  if (linear(e)) { P3 d = dir(e); for (int i = -12; i <= 16; ++i) v.push_back(e.a + (i / 8.0) * d); }
  else if (e.k == 'T') { for (int i = -2; i <= 10; ++i) for (int j = -2; j <= 10; ++j) v.push_back(e.a + (i / 8.0) * (e.b - e.a) + (j / 8.0) * (e.c - e.a)); }
  else if (e.k == 'B') { for (auto const & d : dirs(2)) for (double f : {0.5, 0.98, 1.02}) v.push_back(e.a + (f * e.r) * unit(d)); }
  else { P3 n = unit(nrm(e)), u = unit(std::abs(n[0]) < 0.9 ? cross(n, P3{1,0,0}) : cross(n, P3{0,1,0})), w = cross(n, u); double r = e.k == 'D' ? e.r : 2;
    for (int i = 0; i < 16; ++i) for (double f : {0.0, 0.3, 0.7, 0.98, 1.02, 1.5}) v.push_back(e.a + (f * r * std::cos(i * PI_ / 8)) * u + (f * r * std::sin(i * PI_ / 8)) * w); }
  return v;
}
static void containment(Map const & m, Ent const & e, std::vector<P3> const & pts)
{
  bool any = false;
  auto ask = [&](P3 const & p, bool want) {
    bool g = inside(m, e, ap(pt(m, p)));
    MC_OK(g == want, "containment", "%s [%s]: point %s reported %s", str(e).c_str(), m.name, str(p).c_str(), g ? "inside" : "outside");
    any = any || want;
  };
  auto both = [&](P3 const & p) {
    if ((e.k == 'D' || e.k == 'B') && std::abs(norm(p - e.a) - e.r) < 1e-6) return; // on the rim: rounding decides
    bool c = contains(e, p); ask(p, c);
    if (flat(e) && c) for (double h : {-1e-3, 1e-3, 0.3}) ask(p + h * unit(nrm(e)), false);
    if ((e.k == 'L' || e.k == 'R') && c && norm(p - e.a) > 0.1) for (double h : {1e-3, 0.3}) { P3 d = dir(e), n = cross(d, std::abs(d[0]) < std::abs(d[1]) ? P3{1,0,0} : P3{0,1,0}); ask(p + h * unit(n), false); ask(p - h * unit(cross(n, d)), false); }
  };
  for (auto const & p : pts) both(p);
  for (auto const & p : own(e)) both(p);
  if (any) mc::nontrivial();
}
static void boxIs(Map const & m, Ent const & e, acme::entity const & E, P3 lo, P3 hi, bool exact, double sc)
{
  acme::vec3 a, b; double s[6]; fillStack(3);
  bool r0 = E.clamp(a, b), r1 = E.clamp(s[0], s[1], s[2], s[3], s[4], s[5]);
  MC_OK(r0 && r1 && E.isClampable() && !E.isNonClampable(), "clampable", "%s [%s]: bounded entity refused a box", str(e).c_str(), m.name);
  for (int i = 0; i < 3; ++i) {
    MC_OK(a[i] == s[i] && b[i] == s[3 + i], "clamp-forms", "%s [%s]: the two clamp forms differ on axis %d", str(e).c_str(), m.name, i);
    bool ok = exact ? closeTo(a[i], lo[i], sc) && closeTo(b[i], hi[i], sc) : a[i] <= lo[i] + 1e-9 * sc && b[i] >= hi[i] - 1e-9 * sc && std::isfinite(a[i]) && std::isfinite(b[i]);
    MC_OK(ok, "clamp", "%s [%s]: box [%g,%g] on axis %d instead of [%g,%g]", str(e).c_str(), m.name, a[i], b[i], i, lo[i], hi[i]);
  }
}
static void noBox(Map const & m, Ent const & e, acme::entity const & E)
{
  acme::vec3 a, b; double s[6];
  MC_OK(!E.clamp(a, b) && !E.clamp(s[0], s[1], s[2], s[3], s[4], s[5]) && !E.isClampable() && E.isNonClampable(), "unclampable", "%s [%s]: unbounded entity gave a box", str(e).c_str(), m.name);
}
static P3 mn(P3 a, P3 b) { for (int i = 0; i < 3; ++i) a[i] = std::min(a[i], b[i]); return a; }
static P3 mx(P3 a, P3 b) { for (int i = 0; i < 3; ++i) a[i] = std::max(a[i], b[i]); return a; }
static void kindIs(Map const & m, Ent const & e, acme::entity const & E)
{
  bool f[9] = {E.isNone(), E.isPoint(), E.isLine(), E.isRay(), E.isPlane(), E.isSegment(), E.isTriangle(), E.isDisk(), E.isBall()};
  static char const * nm[9] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball"};
  int k = std::string("0PLRNSTDB").find(e.k);
  for (int i = 0; i < 9; ++i) MC_OK(f[i] == (i == k), "kind", "%s: is %s reported %d", str(e).c_str(), nm[i], f[i]);
  MC_OK(E.type() == nm[k], "type", "%s: type is '%s'", str(e).c_str(), E.type().c_str());
  MC_OK(E.isDegenerated() == false, "degenerated", "%s [%s] reported degenerated", str(e).c_str(), m.name);
}
// a plane given by origin and normal (mapped)
static void planeIs(Map const & m, Ent const & e, acme::plane const & n, P3 const & o, P3 const & v, double sc)
{
  P3 u = unit(v);
  MC_OK(nearP(n.unitNormal(), u, 1), "unit-normal", "%s [%s]: unit normal %s", str(e).c_str(), m.name, str(p3(n.unitNormal())).c_str());
  acme::plane k = n; k.normalize();
  MC_OK(nearP(k.normal(), u, 1) && nearP(k.origin(), o, sc), "normalize", "%s [%s]: normalized plane is different", str(e).c_str(), m.name);
  MC_OK(closeTo(n.d(), -dot(o, p3(n.normal())), norm(o) * norm(v)) , "offset", "%s [%s]: plane offset %g", str(e).c_str(), m.name, n.d());
  for (auto const & p : cube(-2, 2)) {
    P3 q = pt(m, p); double w = dot(q - o, u); acme::point Q = ap(q);
    MC_OK(closeTo(n.signedDistance(Q), w, sc) && closeTo(n.distance(Q), std::abs(w), sc) && closeTo(n.squaredDistance(Q), w * w, sc * sc), "distance",
      "%s [%s]: point %s is at %g, signed distance %g, distance %g, squared %g", str(e).c_str(), m.name, str(q).c_str(), w, n.signedDistance(Q), n.distance(Q), n.squaredDistance(Q));
  }
}
static void measures(Map const & m, Ent const & e)
{
  P3 a = pt(m, e.a); double sc = m.s * 4 + norm(m.o);
  auto w = [&](char const * what) { return str(e) + " [" + m.name + "] " + what; };
  switch (e.k) {
    case 'P': { acme::point p = mkP(m, e); kindIs(m, e, p); boxIs(m, e, p, a, a, true, sc); break; }
    case 'L': case 'R': {
      P3 d = dc(m, e.b);
      auto f = [&](auto const & l) {
        kindIs(m, e, l); noBox(m, e, l);
        MC_OK(same(p3(l.origin()), a) && same(p3(l.direction()), d) && nearP(l.toVector(), d, 0) && nearP(l.toUnitVector(), unit(d), 1), "vector", "%s", w("has another origin or direction").c_str());
        auto k = l; k.normalize(); MC_OK(nearP(k.direction(), unit(d), 1) && same(p3(k.origin()), a), "normalize", "%s", w("normalized is different").c_str());
        MC_OK(l.isApprox(l), "approx", "%s", w("is not approximately itself").c_str());
        auto z = l; z.origin() += acme::vec3(0.5 * m.s, 0, 0); auto y = l; y.direction() = y.direction() * 2.0;
        MC_OK(!l.isApprox(z) && !l.isApprox(y), "approx", "%s", w("is approximately something else").c_str());
        auto g = l; g.direction() = acme::vec3(0, 0, 0); MC_OK(g.isDegenerated(), "degenerated", "%s", w("without direction is not degenerated").c_str());
      };
      if (e.k == 'L') { f(mkL(m, e)); MC_OK(acme::line(a[0], a[1], a[2], d[0], d[1], d[2]).isApprox(mkL(m, e)), "constructor", "%s", w("constructors differ").c_str()); }
      else { f(mkR(m, e)); MC_OK(acme::ray(a[0], a[1], a[2], d[0], d[1], d[2]).isApprox(mkR(m, e)), "constructor", "%s", w("constructors differ").c_str()); }
      break;
    }
    case 'S': {
      acme::segment s = mkS(m, e); P3 b = pt(m, e.b); kindIs(m, e, s); boxIs(m, e, s, mn(a, b), mx(a, b), true, sc);
      MC_OK(closeTo(s.length(), m.s * norm(e.b - e.a), sc), "length", "%s", w(mc::fmt("has length %g", s.length()).c_str()).c_str());
      MC_OK(nearP(s.centroid(), pt(m, 0.5 * (e.a + e.b)), sc) && nearP(s.toVector(), b - a, sc) && nearP(s.toUnitVector(), unit(b - a), 1), "centroid", "%s", w("has another centroid or vector").c_str());
      MC_OK(same(p3(s[0]), a) && same(p3(s[1]), b), "vertex", "%s", w("has other vertices").c_str());
      acme::point v[2] = {ap(a), ap(b)}; MC_OK(acme::segment(v).isApprox(s) && acme::segment(a[0], a[1], a[2], b[0], b[1], b[2]).isApprox(s), "constructor", "%s", w("constructors differ").c_str());
      acme::segment z(v[0], v[0]); MC_OK(z.isDegenerated() && !s.isApprox(z), "degenerated", "%s", w("collapsed is not degenerated").c_str());
      break;
    }
    case 'N': {
      acme::plane n = mkN(m, e); P3 v = vc(m, e.b); kindIs(m, e, n); noBox(m, e, n); planeIs(m, e, n, a, v, sc);
      MC_OK(acme::plane(a[0], a[1], a[2], v[0], v[1], v[2]).isApprox(n), "constructor", "%s", w("constructors differ").c_str());
      acme::plane z(ap(a), acme::vec3(0, 0, 0)); MC_OK(z.isDegenerated() && !n.isApprox(z), "degenerated", "%s", w("without normal is not degenerated").c_str());
      break;
    }
    case 'T': {
      P3 L[3] = {e.a, e.b, e.c}, V[3] = {a, pt(m, e.b), pt(m, e.c)}; acme::triangle t = mkT(m, e); P3 n = nrm(e); double A = 0.5 * norm(n);
      kindIs(m, e, t); boxIs(m, e, t, mn(a, mn(V[1], V[2])), mx(a, mx(V[1], V[2])), true, sc);
      MC_OK(closeTo(t.area(), A * m.s * m.s, sc * sc * 1e-3), "area", "%s", w(mc::fmt("has area %g", t.area()).c_str()).c_str());
      MC_OK(closeTo(t.perimeter(), m.s * (norm(e.b - e.a) + norm(e.c - e.b) + norm(e.a - e.c)), sc), "perimeter", "%s", w(mc::fmt("has perimeter %g", t.perimeter()).c_str()).c_str());
      MC_OK(nearP(t.centroid(), pt(m, (1.0 / 3) * (e.a + e.b + e.c)), sc), "centroid", "%s", w("has another centroid").c_str());
      MC_OK(nearP(t.normal(), mul(m.R, unit(n)), 1e3), "normal", "%s", w("has another normal").c_str());
      for (int i = 0; i < 3; ++i) {
        acme::segment g = t.edge(i);
        MC_OK(same(p3(t[i]), V[i]) && same(p3(g[0]), V[i]) && same(p3(g[1]), V[(i + 1) % 3]), "edge", "%s", w("has other vertices or edges").c_str());
      }
      acme::plane lp = t.layingPlane(); planeIs(m, e, lp, p3(lp.origin()), p3(lp.normal()), sc);
      for (int i = 0; i < 3; ++i) MC_OK(std::abs(dot(V[i] - p3(lp.origin()), unit(p3(lp.normal())))) < 1e-9 * sc, "laying-plane", "%s", w("does not lie in its plane").c_str());
      // barycentric coordinates of the projection of a point
      for (int i = -4; i <= 8; ++i) for (int j = -4; j <= 8; ++j) for (double h : {0.0, 0.7}) {
        double bv = i / 4.0, bw = j / 4.0; P3 p = e.a + bv * (e.b - e.a) + bw * (e.c - e.a) + h * unit(n); double u, v, x; t.barycentric(ap(pt(m, p)), u, v, x);
        MC_OK(std::abs(v - bv) < 1e-7 && std::abs(x - bw) < 1e-7 && std::abs(u - (1 - bv - bw)) < 1e-7, "barycentric", "%s", w(mc::fmt("point (%g,%g,%g) has barycentric coordinates (%g,%g,%g)", 1 - bv - bw, bv, bw, u, v, x).c_str()).c_str());
      }
      acme::point v[3] = {ap(V[0]), ap(V[1]), ap(V[2])};
      MC_OK(acme::triangle(v).isApprox(t) && acme::triangle(a[0], a[1], a[2], V[1][0], V[1][1], V[1][2], V[2][0], V[2][1], V[2][2]).isApprox(t), "constructor", "%s", w("constructors differ").c_str());
      for (int i = 0; i < 3; ++i) { acme::triangle z = t; z[i] = z[(i + 1) % 3]; MC_OK(z.isDegenerated() && !t.isApprox(z), "degenerated", "%s", w("with two equal vertices is not degenerated").c_str()); }
      break;
    }
    case 'D': {
      acme::disk d = mkD(m, e); P3 u = unit(vc(m, e.b)); double r = e.r * m.s; kindIs(m, e, d); planeIs(m, e, d.layingPlane(), a, u, sc);
      MC_OK(closeTo(d.area(), PI_ * r * r, 0) && closeTo(d.perimeter(), 2 * PI_ * r, 0), "area", "%s", w(mc::fmt("has area %g and perimeter %g", d.area(), d.perimeter()).c_str()).c_str());
      P3 lo, hi; for (int i = 0; i < 3; ++i) { double x = r * std::sqrt(std::max(0.0, 1 - u[i] * u[i])); lo[i] = a[i] - x; hi[i] = a[i] + x; }
      boxIs(m, e, d, lo, hi, false, sc);
      P3 v = vc(m, e.b); MC_OK(acme::disk(r, a[0], a[1], a[2], v[0], v[1], v[2]).isApprox(d) && acme::disk(r, acme::plane(ap(a), av(v))).isApprox(d) && same(p3(d.center()), a) && d.radius() == r, "constructor", "%s", w("constructors differ").c_str());
      acme::disk k = d; k.normalize(); MC_OK(nearP(k.normal(), u, 1) && k.radius() == r && same(p3(k.center()), a), "normalize", "%s", w("normalized is different").c_str());
      acme::disk z = d; z.radius() = 0; acme::disk y = d; y.normal() = acme::vec3(0, 0, 0); MC_OK(z.isDegenerated() && y.isDegenerated() && !d.isApprox(y), "degenerated", "%s", w("without radius or normal is not degenerated").c_str());
      break;
    }
    default: {
      acme::ball b = mkB(m, e); double r = e.r * m.s; P3 k = {r, r, r}; kindIs(m, e, b); boxIs(m, e, b, a - k, a + k, true, sc);
      MC_OK(closeTo(b.area(), 4 * PI_ * r * r, 0) && closeTo(b.volume(), 4 * PI_ / 3 * r * r * r, 0), "volume", "%s", w(mc::fmt("has area %g and volume %g", b.area(), b.volume()).c_str()).c_str());
      MC_OK(acme::ball(r, a[0], a[1], a[2]).isApprox(b) && same(p3(b.center()), a) && b.radius() == r, "constructor", "%s", w("constructors differ").c_str());
      acme::ball z = b; z.radius() = 0; MC_OK(z.isDegenerated(), "degenerated", "%s", w("without radius is not degenerated").c_str());
    }
  }
  mc::nontrivial();
}
__attribute__((noinline)) static bool undefinedPoint() { acme::point p; return std::isnan(p[0]) && std::isnan(p[1]) && std::isnan(p[2]); }
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<P3> pts = cube(-2, 2);
  { std::vector<P3> h = cube(th ? -6 : -4, th ? 6 : 4); pts.clear(); for (auto const & p : h) pts.push_back(0.5 * p); }
  std::vector<Ent> menu;
  for (auto const & o : std::vector<P3>{{0,0,0}, {1,0,-1}, {1,2,1}}) for (auto const & d : dirs(th ? 3 : 2))
    for (char k : {'L', 'R', 'S', 'N'}) menu.push_back({k, o, k == 'S' ? o + d : d, {0,0,0}, 0});
  for (auto const & v : {triMenu(true), diskMenu(true), planeMenu(true), ballMenu(true)}) for (auto const & e : v) menu.push_back(e);
  // every triangle of the lattice corner
  { auto c = cube(0, th ? 2 : 1); for (auto const & a : c) for (auto const & b : c) for (auto const & q : c) if (!zero(cross(b - a, q - a))) menu.push_back({'T', a, b, q, 0}); }
  for (auto const & n : dirs(2)) for (double r : {0.75, 1.3, 2.6}) menu.push_back({'D', {1,0,1}, n, {0,0,0}, r});
  for (auto const & p : cube(-1, 1)) { menu.push_back({'P', p, {}, {}, 0}); for (double r : {0.6, 1.1, 2.7}) menu.push_back({'B', p, {}, {}, r}); }
  for (auto const & e : menu) for (auto const & m : maps()) {
    mc::kase([&] { measures(m, e); }, [&] { return "measures of " + str(e) + " [" + m.name + "]"; });
    if (e.k != 'P') mc::kase([&] { containment(m, e, pts); }, [&] { return "containment in " + str(e) + " [" + m.name + "]"; });
  }
  for (auto const & u : dirs(2)) for (auto const & m : maps())
    mc::kase([&] {
      for (auto const & v : dirs(2)) {
        double c = dot(u, v) / std::sqrt(dot(u, u) * dot(v, v)), w = std::acos(std::min(1.0, std::max(-1.0, c))), g = acme::Angle(av(vc(m, u)), av(vc(m, v)));
        MC_OK(std::isfinite(g) && std::abs(g - w) < 1e-6, "angle", "angle between %s and %s [%s] is %g instead of %g", str(u).c_str(), str(v).c_str(), m.name, g, w);
      }
      mc::nontrivial();
    }, [&] { return "angles with " + str(u) + " [" + m.name + "]"; });
  mc::kase([&] {
    for (double f : {0.0, 1.0, 1e300}) {
      fillStack(f); MC_OK(undefinedPoint(), "default-point", "a point without coordinates is not undefined");
      fillStack(f); acme::segment s; acme::triangle t; acme::line l; acme::ray r; acme::plane n; acme::disk d; acme::ball b; acme::none o; acme::vec3 a, c;
      bool ok = true; for (int i = 0; i < 3; ++i) ok = ok && std::isnan(s[0][i]) && std::isnan(s[1][i]) && std::isnan(t[0][i]) && std::isnan(t[1][i]) && std::isnan(t[2][i]) && std::isnan(l.origin()[i]) && std::isnan(l.direction()[i]) &&
        std::isnan(r.origin()[i]) && std::isnan(r.direction()[i]) && std::isnan(n.origin()[i]) && std::isnan(n.normal()[i]) && std::isnan(d.center()[i]) && std::isnan(d.normal()[i]) && std::isnan(b.center()[i]);
      MC_OK(ok && std::isnan(d.radius()) && std::isnan(b.radius()), "default", "an entity without data is not undefined");
      MC_OK(o.isNone() && !o.isClampable() && !o.isNonClampable() && !o.clamp(a, c), "none", "none has a box");
    }
    mc::nontrivial();
  }, [] { return std::string("entities without data"); });
  return mc::finish();
}
