// C23: surface against surface intersections (non-parallel supporting planes).
#include "acmegeo.hh"
using namespace geo;
static Ent shift(Ent e, P3 d) { e.a = e.a + d; if (e.k == 'T') { e.b = e.b + d; e.c = e.c + d; } return e; }
struct Lib { acme::plane n; acme::triangle t; acme::disk d; Lib(Map const & m, Ent const & e) { if (e.k == 'N') n = mkN(m, e); else if (e.k == 'T') t = mkT(m, e); else d = mkD(m, e); } };
static bool seg(Ent const & x, Lib const & X, Ent const & y, Lib const & Y, acme::segment & g)
{
  if (x.k == 'N' && y.k == 'T') return acme::Intersection(X.n, Y.t, g);
  if (x.k == 'N' && y.k == 'D') return acme::Intersection(X.n, Y.d, g);
  if (x.k == 'T' && y.k == 'T') return acme::Intersection(X.t, Y.t, g);
  if (x.k == 'T' && y.k == 'D') return acme::Intersection(X.t, Y.d, g);
  return acme::Intersection(X.d, Y.d, g);
}
static void pair(Map const & m, Ent const & x, Lib const & X, Ent const & y)
{
  if (zero(cross(nrm(x), nrm(y)))) return;
  Lib Y(m, y); Sh s = meet(x, y);
  auto w = [&] { return "(" + str(x) + ", " + str(y) + ") [" + m.name + "], common set " + str(s); };
  if (x.k == 'N' && y.k == 'N') {
    acme::line g(acme::point(7, 7, 7), acme::vec3(1, 2, 3)); bool r = acme::Intersection(X.n, Y.n, g);
    MC_OK(r, "line-decision", "%s: not reported", w().c_str());
    if (r) MC_OK(isDirected(m, g, s, false), "line-place", "%s: gives line %s dir %s", w().c_str(), str(p3(g.origin())).c_str(), str(p3(g.direction())).c_str());
    mc::nontrivial(); mc::outcome(r); return;
  }
  acme::segment g(acme::point(7, 7, 7), acme::point(8, 8, 8)); bool r = false; std::string err;
  unsigned turn = (unsigned)(x.a[0] * 3 + y.a[1] + y.a[2] * 5 + 60); static const double FILL[4] = {0, 1, 7, std::nan("")}; fillStack(FILL[turn & 3]);
  try { r = seg(x, X, y, Y, g); } catch (std::exception const & e) { err = e.what(); }
  MC_OK(err.empty(), "throws", "%s: throws %s", w().c_str(), err.c_str());
  if (!err.empty()) return;
  if (s.k == Sh::EMPTY) MC_OK(!r, "segment-decision", "%s: reports %s", w().c_str(), str(g).c_str());
  if (s.k == Sh::LINEAR) { MC_OK(r, "segment-decision", "%s: reports nothing", w().c_str()); if (r) MC_OK(isPart(m, g, s), "segment-place", "%s: gives %s", w().c_str(), str(g).c_str()); mc::nontrivial(); }
  if (s.k == Sh::POINT && r) MC_OK(isPart(m, g, s), "segment-place", "%s: gives %s", w().c_str(), str(g).c_str());
  mc::outcome(mc::mix(r + 4 * s.k, x.k * 256 + y.k));
}
// area of the overlap of two coplanar triangles (clipping), and whether they are separated
static double overlap(Ent const & x, Ent const & y)
{
  P3 n = nrm(x); std::vector<P3> poly = {y.a, y.b, y.c}; P3 v[3] = {x.a, x.b, x.c};
  for (int i = 0; i < 3; ++i) {
    P3 in = cross(n, v[(i+1)%3] - v[i]); std::vector<P3> q;
    for (size_t k = 0; k < poly.size(); ++k) {
      P3 a = poly[k], b = poly[(k+1) % poly.size()]; double da = dot(in, a - v[i]), db = dot(in, b - v[i]);
      if (da >= 0) q.push_back(a);
      if ((da > 0 && db < 0) || (da < 0 && db > 0)) q.push_back(a + (da / (da - db)) * (b - a));
    }
    poly = q;
  }
  P3 s = {0, 0, 0}; for (size_t k = 1; k + 1 < poly.size(); ++k) s = s + cross(poly[k] - poly[0], poly[k+1] - poly[0]);
  return 0.5 * norm(s);
}
static bool apart(Ent const & x, Ent const & y)
{
  P3 n = nrm(x);
  for (int o = 0; o < 2; ++o) { Ent const & a = o ? y : x, & b = o ? x : y; P3 v[3] = {a.a, a.b, a.c}, u[3] = {b.a, b.b, b.c}; P3 m = o ? nrm(y) : n;
    for (int i = 0; i < 3; ++i) { P3 in = cross(m, v[(i+1)%3] - v[i]); bool all = true; for (int k = 0; k < 3; ++k) all = all && dot(in, u[k] - v[i]) < -EPS; if (all) return true; } }
  return false;
}
static void coplanar(Map const & m, Ent const & x, Ent const & y)
{
  bool hit = overlap(x, y) > 1e-6, miss = apart(x, y);
  acme::triangle X = mkT(m, x), Y = mkT(m, y); acme::none out;
  bool r = acme::Intersection(X, Y, out), q = acme::Intersection(Y, X, out);
  if (hit || miss) MC_OK(r == hit && q == hit, "coplanar-decision", "coplanar %s and %s [%s]: reported %d and %d", str(x).c_str(), str(y).c_str(), m.name, r, q);
  if (hit) mc::nontrivial();
  mc::outcome(mc::mix(99, hit * 2 + miss));
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<Ent> surf;
  for (auto const & v : {planeMenu(true), triMenu(true), diskMenu(true)}) for (auto const & e : v) surf.push_back(e);
  auto SH = cube(-2, 2); if (th) SH = cube(-4, 4);
  for (size_t i = 0; i < surf.size(); ++i) for (size_t j = i; j < surf.size(); ++j) for (auto const & m : maps())
    mc::kase([&] { Lib X(m, surf[i]); for (auto const & d : SH) pair(m, surf[i], X, shift(surf[j], d));
                   if (surf[i].k == surf[j].k && i != j) { Lib Z(m, surf[j]); for (auto const & d : SH) pair(m, surf[j], Z, shift(surf[i], d)); } },
             [&] { return str(surf[i]) + " against shifts of " + str(surf[j]) + " [" + m.name + "]"; });
  // every triangle with vertices on a small lattice
  auto V = cube(0, th ? 2 : 1); std::vector<Ent> P;
  { auto a = planeMenu(false); auto b = triMenu(false); auto c = diskMenu(false); for (size_t i = 0; i < a.size(); ++i) P.push_back(a[i]); for (size_t i = 0; i < b.size(); i += 2) P.push_back(b[i]); for (size_t i = 0; i < c.size(); ++i) P.push_back(c[i]); }
  for (auto const & a : V) for (auto const & b : V) for (auto const & m : maps()) for (int half = 0; half < 2; ++half)
    mc::kase([&] { for (auto const & c : V) { Ent t = {'T', a, b, c, 0}; if (half) { t.a = 2 * t.a - P3{0.5, 0.25, 0.75}; t.b = 2 * t.b - P3{0.5, 0.25, 0.75}; t.c = 2 * t.c - P3{0.5, 0.25, 0.75}; } if (zero(nrm(t))) continue;
        Lib X(m, t); for (auto const & p : P) { if (p.k == 'N') pair(m, p, Lib(m, p), t); else pair(m, t, X, p); } } },
      [&] { return "triangles " + ::str(a) + ::str(b) + "*" + (half ? " doubled" : "") + " [" + m.name + "]"; });
  // coplanar triangles: all on a planar lattice against some, in four planes
  {
    std::vector<P3> g; for (int a = 0; a < (th ? 4 : 3); ++a) for (int b = 0; b < (th ? 4 : 3); ++b) g.push_back({(double)a, (double)b, 0});
    P3 const F[4][2] = {{{1,0,0},{0,1,0}}, {{0,1,0},{0,0,1}}, {{1,0,1},{0,1,1}}, {{2,1,0},{0,1,-1}}};
    P3 const Q[9][3] = {{{0,0,0},{2,0,0},{0,2,0}}, {{-1,0.5,0},{3,0.5,0},{1,0.75,0}}, {{0.5,-1,0},{1,4,0},{1.5,-1,0}}, {{-2,-2,0},{5,-1,0},{1,6,0}}, {{0.5,0.5,0},{0.75,0.5,0},{0.5,0.75,0}}, {{-1,-1,0},{-1,4,0},{0.25,1.5,0}}, {{2.5,0,0},{2.5,3,0},{4,1,0}}, {{-1,3,0},{3,-1,0},{3.5,-0.5,0}}, {{0,0,0},{1,0,0},{0,1,0}}};
    for (auto const & m : maps()) for (auto const & f : F) for (auto const & q : Q) for (auto const & a : g)
      mc::kase([&] {
        auto at = [&](P3 p) { return p[0] * f[0] + p[1] * f[1] + P3{0.5, 0, 0}; };
        Ent y = {'T', at(q[0]), at(q[1]), at(q[2]), 0};
        for (auto const & b : g) for (auto const & c : g) { Ent x = {'T', at(a), at(b), at(c), 0}; if (!zero(nrm(x))) coplanar(m, x, y); }
      }, [&] { return "coplanar triangles from " + ::str(a) + " against " + ::str(q[0]) + ::str(q[1]) + ::str(q[2]) + " in plane " + ::str(f[0]) + ::str(f[1]) + " [" + m.name + "]"; });
  }
  // three planes
  auto N = dirs(1);
  std::vector<double> off = {0, 1}; if (th) off = {-1, 0, 2};
  for (size_t i = 0; i < N.size(); ++i) for (auto const & m : maps())
    mc::kase([&] { for (auto const & b : N) for (auto const & c : N) {
        double det = dot(N[i], cross(b, c)); if (zero(det)) continue;
        for (double x : off) for (double y : off) for (double z : off) {
          P3 w = (1 / det) * (x * cross(b, c) + y * cross(c, N[i]) + z * cross(N[i], b));
          auto pl = [&](P3 n, double o) { return mkN(m, {'N', (o / dot(n, n)) * n + cross(n, P3{1, 2, -1}), n, {0,0,0}, 0}); };
          acme::point p(7, 7, 7); bool r = acme::Intersection(pl(N[i], x), pl(b, y), pl(c, z), p);
          MC_OK(r && at(m, p3(p), w), "three-planes", "normals %s %s %s offsets %g %g %g [%s]: %d %s, expected %s", str(N[i]).c_str(), str(b).c_str(), str(c).c_str(), x, y, z, m.name, r, str(p3(p)).c_str(), str(pt(m, w)).c_str());
          mc::nontrivial();
        } } }, [&] { return "three planes, first normal " + ::str(N[i]) + " [" + m.name + "]"; });
  return mc::finish();
}
