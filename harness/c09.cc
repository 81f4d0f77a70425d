// C09: sampling enveloping against the four-probe definition.
#include "scene.hh"

struct SRef { bool undecided = false, hit = false; P3 pt, n; double f, d, a, v; };
// highest ground point over (x,y); 0 none, 1 found, 2 undecided
static int probe(Ground const & g, double x, double y, double & z, double & f)
{
  if (g.flat) { z = g.o[2] - (g.n[0] * (x - g.o[0]) + g.n[1] * (y - g.o[1])) / g.n[2]; f = g.f; return 1; }
  int r = 0; bool edge = false; double best = -1e300;
  double bestEdge = -1e300, fEdge = 0;
  for (auto const & t : g.t) {
    double x0 = t.v[0][0], y0 = t.v[0][1], d1x = t.v[1][0] - x0, d1y = t.v[1][1] - y0, d2x = t.v[2][0] - x0, d2y = t.v[2][1] - y0, det = d1x * d2y - d1y * d2x;
    if (std::abs(det) < 1e-6) { // nearly vertical triangle: out of the way or undecided
      double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300};
      for (auto const & v : t.v) for (int k = 0; k < 2; ++k) { lo[k] = std::min(lo[k], v[k]); hi[k] = std::max(hi[k], v[k]); }
      if (x > lo[0] - 1e-4 && x < hi[0] + 1e-4 && y > lo[1] - 1e-4 && y < hi[1] + 1e-4) return 2;
      continue;
    }
    double u = ((x - x0) * d2y - (y - y0) * d2x) / det, v = (d1x * (y - y0) - d1y * (x - x0)) / det, w = 1 - u - v;
    double m = std::min(u, std::min(v, w));
    if (m < -1e-6) continue;
    double zz = t.v[0][2] + u * (t.v[1][2] - t.v[0][2]) + v * (t.v[2][2] - t.v[0][2]);
    if (m < 1e-6) { edge = true; if (zz > bestEdge) { bestEdge = zz; fEdge = t.f; } continue; }
    if (r && std::abs(zz - best) < 1e-7 && t.f != f) return 2;
    if (zz > best) { best = zz; f = t.f; r = 1; }
  }
  if (edge && bestEdge > best - 1e-7) return 2;
  (void)fEdge;
  z = best; return r;
}
static SRef sref(Ground const & g, RibRef const & rb, Pose const & ps)
{
  SRef o; M3 R = rot(ps); P3 c = P3{ps.x, ps.y, ps.z} + rb.y * R[1];
  P3 off[4] = {(0.1 * rb.r) * R[0], (-0.1 * rb.r) * R[0], (0.3 * rb.w) * R[1], (-0.3 * rb.w) * R[1]}, p[4]; double f[4];
  int miss = 0;
  for (int k = 0; k < 4; ++k) {
    P3 q = c + off[k]; double z;
    int r = probe(g, q[0], q[1], z, f[k]);
    if (r == 2) { o.undecided = true; return o; }
    if (r == 0) { ++miss; continue; }
    p[k] = {q[0], q[1], z};
  }
  if (miss) return o;
  o.pt = 0.25 * (p[0] + p[1] + p[2] + p[3]);
  P3 n = cross(p[0] - p[1], p[2] - p[3]);
  if (norm(n) < 0.05 * norm(p[0] - p[1]) * norm(p[2] - p[3])) { o.undecided = true; return o; }
  n = unit(n); if (std::abs(n[2]) < 1e-6) { o.undecided = true; return o; }
  if (n[2] < 0) n = -1.0 * n;
  o.n = n; o.f = 0.25 * (f[0] + f[1] + f[2] + f[3]);
  double sn = dot(n, R[1]);
  o.d = rb.r * std::sqrt(std::max(0.0, 1 - sn * sn)) - norm(o.pt - c);
  if (std::abs(o.d) < 1e-9 || std::abs(sn) > 0.9999) { o.undecided = true; return o; }
  if (o.d <= 0) return o;
  o.hit = true;
  double half = std::sqrt(o.d * (2 * rb.r - o.d));
  o.a = 2 * half * rb.w; o.v = (rb.r * rb.r * std::acos((rb.r - o.d) / rb.r) - (rb.r - o.d) * half) * rb.w;
  return o;
}
static void compare(enve::output const & o, bool hit, SRef const & e, RibRef const & rb, Pose const & ps, char const * w)
{
  MC_OK(hit == e.hit, "status", "%s %s rib(R=%g,y=%g,w=%g): contact %d, expected %d", w, str(ps).c_str(), rb.r, rb.y, rb.w, hit, e.hit);
  if (hit != e.hit) return;
  mc::outcome(mc::mixd(mc::mixd(hit, o.depth), o.friction));
  if (!hit) {
    M3 R = rot(ps); P3 c = P3{ps.x, ps.y, ps.z} + rb.y * R[1];
    MC_OK(near(p3(o.point), c - rb.r * R[2]) && near(p3(o.normal), R[2]) && o.friction == 0 && o.depth == 0 && o.area == 0 && o.volume == 0, "idle", "%s %s: outputs without contact are not idle", w, str(ps).c_str());
    return;
  }
  mc::nontrivial();
  double S = 1e-8 * (1 + norm(e.pt));
  MC_OK(norm(p3(o.point) - e.pt) < S, "point", "%s %s: point %s, expected %s", w, str(ps).c_str(), str(p3(o.point)).c_str(), str(e.pt).c_str());
  MC_OK(norm(p3(o.normal) - e.n) < 1e-6, "normal", "%s %s: normal %s, expected %s", w, str(ps).c_str(), str(p3(o.normal)).c_str(), str(e.n).c_str());
  MC_OK(std::abs(o.friction - e.f) < 1e-9, "friction", "%s %s: friction %.10g, expected %.10g", w, str(ps).c_str(), (double)o.friction, e.f);
  MC_OK(std::abs(o.depth - e.d) < 10 * S, "depth", "%s %s: depth %.12g, expected %.12g", w, str(ps).c_str(), (double)o.depth, e.d);
  double g = std::sqrt(rb.r / std::max(1e-9, e.d));
  MC_OK(std::abs(o.area - e.a) < 30 * S * g * rb.w, "area", "%s %s: area %.12g, expected %.12g", w, str(ps).c_str(), (double)o.area, e.a);
  MC_OK(std::abs(o.volume - e.v) < 30 * S * rb.w * rb.r, "volume", "%s %s: volume %.12g, expected %.12g", w, str(ps).c_str(), (double)o.volume, e.v);
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<RibRef> ribs = {{0.3, 0, 0.05}, {0.28, 0.061, 0.2}, {1.0, -0.2, 0.3}, {0.05, 0.004, 0.01}};
  std::vector<double> yaw = {0, 31, 90, 200.7}, cam = {0, 9, -27, 60, 79, -86, 175}, spin = {0, -35, 180, 48}, xs = {0.0, 0.0137, -0.31, 0.52}, zf = {-0.5, 0.1, 0.5, 0.8, 0.95, 1.02, 1.3};
  if (th) { for (double a : {-73., 137.}) yaw.push_back(a); for (double a : {3., 45., -60., 120.}) cam.push_back(a); for (double a : {12., 150., -150.}) spin.push_back(a); for (double a : {-0.07, 0.21, 0.97}) xs.push_back(a); for (double a : {-0.9, -0.1, 0.3, 0.65, 0.99}) zf.push_back(a); }
  std::vector<Ground> G = grounds(true);
  { Ground l = gridGround("layers", -1.013, 1.0071, 4, -1.0171, 1.0029, 4, [](double, double, int i, int j) { return bump(i, j, 0.02); });
    Ground u = gridGround("u", -0.413, 0.3071, 3, -0.4171, 0.5029, 3, [](double, double, int i, int j) { return 0.08 + bump(i, j, 0.01); });
    Ground d = gridGround("d", -1.3, 1.2, 2, -1.1, 1.15, 2, [](double, double, int, int) { return -0.3; });
    // the same three layers, in several storage orders
    Ground a = l; a.name = "layers low-mid-high"; a.t = d.t; a.t.insert(a.t.end(), l.t.begin(), l.t.end()); a.t.insert(a.t.end(), u.t.begin(), u.t.end()); G.push_back(a);
    Ground b = a; b.name = "layers high first"; std::reverse(b.t.begin(), b.t.end()); G.push_back(b);
    Ground c = a; c.name = "layers shuffled"; for (size_t i = 0; i < c.t.size(); ++i) std::swap(c.t[i], c.t[(i * 7 + 3) % c.t.size()]); G.push_back(c);
    for (double gap : {4e-3, 2e-5}) { Ground t = l, h = l; t.name = mc::fmt("layers %g apart, low first", gap); for (auto & x : h.t) { x.f += 1.5; for (int k = 0; k < 3; ++k) x.v[k][2] += gap; }
      t.t.insert(t.t.end(), h.t.begin(), h.t.end()); G.push_back(t); } }
  for (auto const & g : G) for (auto const & rb : ribs) for (double ya : yaw) for (double ca : cam)
    mc::kase([&] {
      GObj go; TVec v; if (g.flat) go = mkGround(g); else v = tv(g.t);
      enve::rib rib(0, rb.r, rb.y, rb.w, 0.1);
      for (double sp : spin) for (double x : xs) for (double z : zf) {
        Pose ps = {x, 0.6 * x + 0.0029, z * rb.r, ya * DEG, ca * DEG, sp * DEG};
        SRef e = sref(g, rb, ps);
        if (e.undecided) { mc::note("undecided"); continue; }
        enve::output o;
        bool hit = g.flat ? rib.envelop(*go.flat, aff(ps), "sampling", o) : rib.envelop(v, aff(ps), "sampling", o);
        compare(o, hit, e, rb, ps, g.name.c_str());
      }
    }, [&] { return mc::fmt("%s (%zu triangles), rib(R=%g,y=%g,w=%g), yaw %g, camber %g, all spins, positions and heights", g.name.c_str(), g.t.size(), rb.r, rb.y, rb.w, ya, ca); });
  // planar meshes whose edges and vertices fall exactly under the probes
  for (int kind = 0; kind < 6; ++kind) for (auto const & sl : std::vector<std::array<double,2>>{{0, 0}, {10, 0}, {20, 111}}) for (double ya : {0.0, 90.0, 45.0})
    mc::kase([&] {
      double a = std::tan(sl[0] * DEG), cx = a * std::cos(sl[1] * DEG), cy = a * std::sin(sl[1] * DEG);
      auto Z = [&](double x, double y) { return P3{x, y, -cx * x - cy * y}; };
      std::vector<double> xs = {-2, 2}, ys = {-2, 2};
      if (kind == 1) xs = {-2, 0, 2}; if (kind == 2) ys = {-2, 0, 2}; if (kind == 3) { xs = {-2, -0.03, 0.03, 2}; ys = {-2, -0.015, 0.015, 2}; }
      if (kind == 4) { xs = {-2, -0.03, 0, 0.03, 2}; ys = {-2, -0.03, -0.015, 0, 0.015, 0.03, 2}; } if (kind == 5) { xs = {-0.04, 0.04}; ys = {-0.04, 0.04}; }
      for (int diag = 0; diag < 2; ++diag) {
        TVec v; int id = 0;
        for (size_t i = 0; i + 1 < xs.size(); ++i) for (size_t j = 0; j + 1 < ys.size(); ++j) {
          P3 A = Z(xs[i], ys[j]), B = Z(xs[i+1], ys[j]), C = Z(xs[i+1], ys[j+1]), D = Z(xs[i], ys[j+1]);
          if (diag) { v.push_back(tri(id++, 0.7, A, B, C)); v.push_back(tri(id++, 0.7, A, C, D)); } else { v.push_back(tri(id++, 0.7, A, B, D)); v.push_back(tri(id++, 0.7, B, C, D)); }
        }
        enve::ground::flat fl(0.7, ap({0,0,0}), av({cx, cy, 1}));
        enve::rib rib(0, 0.3, 0, 0.05, 0);
        for (double z : zf) for (double ca : {0.0, 11.0}) {
          Pose ps = {0, 0, z * 0.3, ya * DEG, ca * DEG, 0};
          enve::output m, f; bool hm = rib.envelop(v, aff(ps), "sampling", m), hf = rib.envelop(fl, aff(ps), "sampling", f);
          MC_OK(hm == hf, "plane-status", "%s: mesh contact %d, flat contact %d", str(ps).c_str(), hm, hf);
          if (hm != hf) continue;
          mc::nontrivial(hm);
          MC_OK(near(p3(m.point), p3(f.point)) && near(p3(m.normal), p3(f.normal)) && near(m.friction, f.friction) && near(m.depth, f.depth) && near(m.area, f.area, 1e-8) && near(m.volume, f.volume),
                "plane", "%s: mesh gives point %s depth %.10g friction %g, flat gives %s %.10g %g", str(ps).c_str(), str(p3(m.point)).c_str(), (double)m.depth, (double)m.friction, str(p3(f.point)).c_str(), (double)f.depth, (double)f.friction);
        }
      }
    }, [&] { return mc::fmt("planar mesh %d with edges under the probes, slope (%g,%g), yaw %g", kind, sl[0], sl[1], ya); });
  return mc::finish();
}
