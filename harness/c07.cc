// C07: geometric enveloping on meshes against the chord definition, over every
// order, numbering and flip of small meshes and over tessellations of planes.
#include "chord.hh"

static TVec build(std::vector<TriRef> const & ts, std::vector<int> const & perm, int flip, int ids)
{
  TVec v;
  for (size_t i = 0; i < perm.size(); ++i) {
    TriRef const & t = ts[perm[i]];
    int f = (flip >> (2 * i)) & 3; // 0 as is, 1 swapped, 2 rotated, 3 both
    int id = ids == 0 ? (int)i : ids == 1 ? 7 : (int)(100 - i);
    P3 a = t.v[0], b = t.v[1], c = t.v[2];
    if (f & 2) { P3 x = a; a = b; b = c; c = x; }
    if (f & 1) std::swap(b, c);
    v.push_back(tri(id, t.f, a, b, c));
  }
  return v;
}
static std::string tsd(std::vector<TriRef> const & t)
{ std::string s; for (size_t i = 0; i < t.size() && i < 6; ++i) s += mc::fmt("%s%s%s f%g ", str(t[i].v[0]).c_str(), str(t[i].v[1]).c_str(), str(t[i].v[2]).c_str(), t[i].f); if (t.size() > 6) s += "..."; return s; }

static void compare(enve::output const & o, bool hit, ChordAgg const & e, RibRef const & rb, Pose const & ps, std::string const & w, double ext = 1)
{
  MC_OK(hit == e.hit, "status", "%s: contact %d, expected %d", w.c_str(), hit, e.hit);
  if (hit != e.hit) return;
  if (!hit) {
    M3 R = rot(ps); P3 c = P3{ps.x, ps.y, ps.z} + rb.y * R[1];
    MC_OK(near(p3(o.point), c - rb.r * R[2]) && near(p3(o.normal), R[2]) && o.friction == 0 && o.depth == 0 && o.area == 0 && o.volume == 0, "idle", "%s: outputs without contact are not idle", w.c_str());
    return;
  }
  mc::nontrivial();
  double k = 1e-7 * std::max(1.0, ext / 10);
  MC_OK(std::abs(o.area - e.area) <= k * rb.w * rb.r, "area", "%s: area %.12g, expected %.12g", w.c_str(), (double)o.area, e.area);
  MC_OK(std::abs(o.volume - e.vol) <= k * rb.w * rb.r * rb.r, "volume", "%s: volume %.12g, expected %.12g", w.c_str(), (double)o.volume, e.vol);
  double q = k * std::max(1.0, 1e-4 * rb.w * rb.r * rb.r / e.vol);
  MC_OK(std::abs(o.friction - e.fr) <= 10 * q, "friction", "%s: friction %.12g, expected %.12g", w.c_str(), (double)o.friction, e.fr);
  MC_OK(norm(p3(o.point) - e.pt) <= 10 * q, "point", "%s: point %s, expected %s", w.c_str(), str(p3(o.point)).c_str(), str(e.pt).c_str());
  MC_OK(norm(p3(o.normal) - e.n) <= 100 * q, "normal", "%s: normal %s, expected %s", w.c_str(), str(p3(o.normal)).c_str(), str(e.n).c_str());
  MC_OK(near(norm(p3(o.normal)), 1, 1e-9), "normal-unit", "%s: normal is not unit", w.c_str());
  MC_OK(std::abs(o.depth - e.depth) <= 10 * q, "depth", "%s: depth %.12g, expected %.12g", w.c_str(), (double)o.depth, e.depth);
  mc::outcome(mc::mixd(mc::mixd(e.chords, e.area), e.vol));
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<Pose> poses = {
    {0.011, -0.007, 0.26, 0, 0, 0}, {0.011, -0.007, 0.26, 0, 0, 90 * DEG}, {0.02, 0.013, 0.2, 30 * DEG, 10 * DEG, 200 * DEG},
    {-0.03, 0.004, 0.285, 90 * DEG, -25 * DEG, 45 * DEG}, {0.013, 0.017, -0.08, 200 * DEG, 5 * DEG, 0}, {0.02, 0.013, 0.1, -60 * DEG, 70 * DEG, 135 * DEG},
    {0.02, -0.013, 0.29, 12 * DEG, 180 * DEG, 90 * DEG}, {0.02, 0.013, 0.15, 45 * DEG, -3 * DEG, 181 * DEG}};
  std::vector<RibRef> ribs = {{0.3, 0, 0.05}, {0.28, 0.061, 0.02}};
  if (th) ribs.push_back({1.1, -0.2, 0.3});
  // Part A: small meshes from a menu, in every order
  std::vector<TriRef> menu = {
    {{{-5.1, -5.2, 0.003}, {5.3, -4.9, -0.002}, {0.17, 6.1, 0.001}}, 1.0},       // large floor
    {{{0.003, -0.4, 0.01}, {0.5, -0.3, 0.02}, {0.45, 0.41, -0.013}}, 0.5},       // floor piece to the right
    {{{-0.49, 0.33, 0.0}, {-0.009, -0.52, 0.012}, {0.0031, 0.47, 0.023}}, 0.25}, // floor piece to the left
    {{{0.11, -0.31, -0.1}, {0.113, 0.35, -0.11}, {0.108, 0.02, 0.4}}, 2.0},      // vertical step face
    {{{-0.3, -0.2, 0.02}, {0.25, -0.27, 0.07}, {-0.02, 0.31, 0.06}}, 0.0},       // slope
    {{{0.031, -0.05, 0.011}, {0.052, 0.06, 0.014}, {0.043, 0.013, 0.03}}, 1.5},  // small, inside the disk
    {{{-0.6, -0.3, 0.52}, {0.55, -0.4, 0.49}, {0.05, 0.6, 0.5}}, 3.0},           // overhead
    {{{10, 10, 0}, {11, 10, 0.5}, {10.5, 11, 0}}, 9.0},                          // far away
    {{{-0.21, -0.17, -0.2}, {-0.18, 0.22, -0.21}, {-0.29, 0.07, 0.43}}, 0.75},   // wall behind
    {{{-900.1, -800.2, 0.0}, {1000.3, -700.9, 0.4}, {50.17, 900.1, 0.1}}, 0.9},  // huge floor
  };
  int N = th ? 4 : 3;
  std::vector<int> cur;
  std::function<void(size_t)> rec = [&](size_t from) {
    if (!cur.empty()) {
      mc::kase([&] {
        std::vector<TriRef> ts; for (int i : cur) ts.push_back(menu[i]);
        for (auto const & rb : ribs) for (auto const & ps : poses) {
          ChordAgg e = chordAgg(ts, rb, ps);
          if (e.undecided) { mc::note("undecided"); continue; }
          enve::rib rib(0, rb.r, rb.y, rb.w, 0);
          std::vector<int> perm; for (size_t i = 0; i < ts.size(); ++i) perm.push_back((int)i);
          do {
            for (int flip : {0, 1, 0x1b, 0x2d, 0x36}) for (int ids = 0; ids < 3; ++ids) {
              TVec v = build(ts, perm, flip, ids);
              enve::output o; bool hit = rib.envelop(v, aff(ps), "geometric", o);
              compare(o, hit, e, rb, ps, mc::fmt("rib(R=%g,y=%g) %s order %d%d%d flip %x ids %d", rb.r, rb.y, str(ps).c_str(), perm[0], perm.size() > 1 ? perm[1] : 9, perm.size() > 2 ? perm[2] : 9, flip, ids));
            }
          } while (std::next_permutation(perm.begin(), perm.end()));
        }
      }, [&] { std::vector<TriRef> ts; for (int i : cur) ts.push_back(menu[i]); return "mesh " + tsd(ts); });
    }
    if ((int)cur.size() == N) return;
    for (size_t i = from; i < menu.size(); ++i) { cur.push_back((int)i); rec(i); cur.pop_back(); } // i again: duplicated triangles
  };
  rec(0);
  // Part A2: walls standing radially under (or beside) the wheel centre add their length to the area and no volume
  for (auto const & ps : poses) for (auto const & rb : ribs) for (double dir = -180; dir < 180; dir += th ? 15 : 45)
    mc::kase([&] {
      M3 R = rot(ps); P3 c = P3{ps.x, ps.y, ps.z} + rb.y * R[1]; double r = rb.r;
      P3 d = std::cos(dir * DEG) * R[0] + std::sin(dir * DEG) * R[2], n = std::cos((dir + 90) * DEG) * R[0] + std::sin((dir + 90) * DEG) * R[2];
      for (double from : {0.2, 0.55, 0.9}) for (double to : {0.7, 1.3}) for (int floor = 0; floor < 3; ++floor) {
        if (to <= from) continue;
        std::vector<TriRef> ts;
        ts.push_back({{c + (from * r) * d + (0.2 * r) * R[1], c + (from * r) * d - (0.2 * r) * R[1], c + (to * r) * d + (0.05 * r) * R[1]}, 0.3});
        // a floor across the disk, below or beside the wall
        double h = floor == 0 ? 0.6 : floor == 1 ? -0.4 : 0.93;
        ts.push_back({{c + (h * r) * n + 5.0 * d + 4.0 * R[1], c + (h * r) * n + 5.0 * d - 4.0 * R[1], c + (h * r) * n - 9.0 * d + 0.1 * R[1]}, 1.1});
        ChordAgg e = chordAgg(ts, rb, ps);
        if (e.undecided) { mc::note("undecided"); continue; }
        if (e.chords != 2) { mc::note("wall or floor not in reach"); continue; }
        enve::rib rib(0, rb.r, rb.y, rb.w, 0);
        for (int order = 0; order < 2; ++order) {
          TVec v = build(ts, order ? std::vector<int>{1, 0} : std::vector<int>{0, 1}, 0, 0);
          enve::output o; bool hit = rib.envelop(v, aff(ps), "geometric", o);
          compare(o, hit, e, rb, ps, mc::fmt("radial wall from %g to %g of the radius, floor %d, order %d", from, to, floor, order));
        }
      }
    }, [&] { return mc::fmt("rib(R=%g,y=%g) %s, radial wall at %g degrees", rb.r, rb.y, str(ps).c_str(), dir); });
  // Part B: tessellations of planes against the flat ground
  struct Tess { std::string name; double ext, lo[2], hi[2]; std::vector<std::array<std::array<double,2>,3>> t; };
  std::vector<Tess> tess;
  auto grid = [&](std::string n, std::vector<double> xs, std::vector<double> ys, int diag) {
    Tess t; t.name = n;
    for (size_t i = 0; i + 1 < xs.size(); ++i) for (size_t j = 0; j + 1 < ys.size(); ++j) {
      std::array<double,2> a = {xs[i], ys[j]}, b = {xs[i+1], ys[j]}, c = {xs[i+1], ys[j+1]}, d = {xs[i], ys[j+1]};
      int k = diag == 2 ? (int)((i + j) % 2) : diag;
      if (k == 0) { t.t.push_back({a, b, c}); t.t.push_back({a, c, d}); } else { t.t.push_back({a, b, d}); t.t.push_back({b, c, d}); }
    }
    t.ext = std::max(std::abs(xs.front()), xs.back()); t.lo[0] = xs.front(); t.hi[0] = xs.back(); t.lo[1] = ys.front(); t.hi[1] = ys.back();
    tess.push_back(t);
  };
  auto lin = [](double a, double b, int n) { std::vector<double> v; for (int i = 0; i <= n; ++i) v.push_back(a + (b - a) * i / n); return v; };
  grid("two triangles", {-3, 3.1}, {-3.3, 3.2}, 0);
  grid("two triangles, other diagonal", {-3, 3.1}, {-3.3, 3.2}, 1);
  grid("huge", {-2000, 2100}, {-1900, 2050}, 0);
  grid("shifted 4x3", {-3, -0.0371, 0.081, 0.19, 3}, {-3, -0.0113, 0.0473, 3}, 0);
  grid("strips in x", {-3, -0.09, -0.03, 0.0127, 0.05, 0.11, 3}, {-3, 3.3}, 1);
  grid("strips in y", {-3, 3.3}, {-3, -0.11, -0.051, 0.0231, 0.0719, 3}, 0);
  grid("uniform 24x24 alternating", lin(-1.013, 1.0071, 24), lin(-1.0171, 1.0029, 24), 2);
  grid("fine 20 mm", lin(-0.6003, 0.6007, 36), lin(-0.6013, 0.5971, 36), 0);
  grid("fine 3 mm", lin(-0.2903, 0.2907, 190), lin(-0.0163, 0.0141, 6), 1);
  if (th) grid("fine 1 mm strip", lin(-0.4003, 0.4007, 800), lin(-0.1513, 0.1471, 60), 2);
  { // fans around an interior point
    for (int n : {3, 5, 8}) {
      Tess t; t.name = mc::fmt("fan of %d", n);
      double c[2] = {0.0213, -0.0377};
      for (int i = 0; i < n; ++i) { double a = 2 * MPI * i / n + 0.1, b = 2 * MPI * (i + 1) / n + 0.1; t.t.push_back({std::array<double,2>{c[0], c[1]}, {9 * std::cos(a), 9 * std::sin(a)}, {9 * std::cos(b), 9 * std::sin(b)}}); }
      t.ext = 9; t.lo[0] = t.lo[1] = -3; t.hi[0] = t.hi[1] = 3; tess.push_back(t);
    }
  }
  std::vector<std::array<double,2>> slopes = {{0, 0}, {12, 0}, {8, 77}, {30, 200}};
  std::vector<double> yaw = {3, 47, 90.7, 211}, cam = {0, 7, -30, 55}, spin = {0, 90, 200}, T = {-1.4, -0.6, -0.05, 0.2, 0.6, 0.93, 0.999, 1.02};
  if (th) { yaw.push_back(-71); yaw.push_back(133.3); cam.push_back(-4); cam.push_back(170); spin.push_back(270); spin.push_back(31); for (double t : {-0.98, 0.4, 0.8, 0.97}) T.push_back(t); }
  for (auto const & te : tess) for (auto const & sl : slopes) for (double ya : yaw) for (double ca : cam)
    mc::kase([&] {
      double sa = std::tan(sl[0] * DEG), dirx = std::cos(sl[1] * DEG), diry = std::sin(sl[1] * DEG);
      auto Z = [&](std::array<double,2> const & p) { return P3{p[0], p[1], -sa * (p[0] * dirx + p[1] * diry)}; };
      P3 g = unit(P3{sa * dirx, sa * diry, 1});
      std::vector<TriRef> ts; TVec v, vr;
      double fl[] = {1, 0.5, 0.25, 2};
      for (size_t i = 0; i < te.t.size(); ++i) ts.push_back({{Z(te.t[i][0]), Z(te.t[i][1]), Z(te.t[i][2])}, fl[i % 4]});
      for (size_t i = 0; i < ts.size(); ++i) v.push_back(tri((int)i, ts[i].f, ts[i].v[0], ts[i].v[1], ts[i].v[2]));
      vr = TVec(v.rbegin(), v.rend());
      enve::ground::flat flat(1.0, ap({0,0,0}), av(g));
      bool huge = te.t.size() > 20000; int nth = 0;
      for (double sp : spin) for (auto const & rb : ribs) for (double t : T) {
        if (huge && nth++ % 7) continue; // every seventh combination on the largest mesh
        Pose ps = {0.0041, -0.0067, 0, ya * DEG, ca * DEG, sp * DEG};
        M3 R = rot(ps);
        double s = norm(g - dot(g, R[1]) * R[1]);
        if (s < 0.05) continue;
        // raise the wheel so that the rib centre has signed distance t*r*s
        double need = t * rb.r * s - dot(g, P3{ps.x, ps.y, 0} + rb.y * R[1]);
        ps.z = need / g[2];
        ChordAgg e = chordAgg(ts, rb, ps);
        enve::rib rib(0, rb.r, rb.y, rb.w, 0);
        enve::output om, orv, of;
        bool hm = rib.envelop(v, aff(ps), "geometric", om), hr = rib.envelop(vr, aff(ps), "geometric", orv), hf = rib.envelop(flat, aff(ps), "geometric", of);
        std::string w = mc::fmt("rib(R=%g,y=%g) %s t=%g", rb.r, rb.y, str(ps).c_str(), t);
        // is the whole chord covered by the mesh?
        bool cov = true;
        if (hf) { P3 tg = unit(cross(g, R[1])); double h = of.area / rb.w / 2; for (int k = 0; k < 2; ++k) for (double sg : {-1.0, 1.0}) { double x = of.point[k] + sg * h * tg[k]; if (x < te.lo[k] + 1e-6 || x > te.hi[k] - 1e-6) cov = false; } }
        if (!cov) mc::note("chord not covered");
        if (cov && std::abs(std::abs(t) - 1) > 1e-4) {
          MC_OK(hm == hf && hr == hf, "plane-status", "%s: mesh contact %d/%d, flat contact %d", w.c_str(), hm, hr, hf);
          if (hm && hf && hr) {
            MC_OK(std::abs(om.area - of.area) <= 2e-6 * rb.w * te.t.size() * 0.1 + 1e-7 * of.area, "plane-area", "%s: mesh area %.12g, flat area %.12g", w.c_str(), (double)om.area, (double)of.area);
            MC_OK(std::abs(om.volume - of.volume) <= 1e-6 * rb.w * rb.r, "plane-volume", "%s: mesh volume %.12g, flat volume %.12g", w.c_str(), (double)om.volume, (double)of.volume);
            P3 c = P3{ps.x, ps.y, ps.z} + rb.y * R[1];
            MC_OK(std::abs(dot(g, p3(om.point))) < 1e-7, "plane-point", "%s: point %s is off the ground plane", w.c_str(), str(p3(om.point)).c_str());
            MC_OK(std::abs(dot(R[1], p3(om.point) - c)) < 1e-7, "plane-point", "%s: point %s is off the rib plane", w.c_str(), str(p3(om.point)).c_str());
            MC_OK(near(om.area, orv.area, 1e-9) && near(om.volume, orv.volume, 1e-9) && near(p3(om.point), p3(orv.point), 1e-7) && near(p3(om.normal), p3(orv.normal), 1e-7) && near(om.friction, orv.friction, 1e-7),
                  "plane-order", "%s: reversing the triangle order changes the result", w.c_str());
          }
        }
        if (e.undecided) { mc::note("undecided"); continue; }
        compare(om, hm, e, rb, ps, w, te.ext);
      }
    }, [&] { return mc::fmt("plane tessellated as %s (%zu triangles), slope (%g,%g), yaw %g, camber %g", te.name.c_str(), te.t.size(), sl[0], sl[1], ya, ca); });
  // Part C: mesh edges lying exactly in the rib plane
  for (int rows : {1, 2, 3}) for (int halfw : {1, 4}) for (double zc : {0.1, 0.2, 0.29})
    mc::kase([&] {
      // rows of quads on either side of y=0 (rib plane): the edge y=0 is shared
      std::vector<TriRef> ts; TVec v;
      double xs[] = {-1, -0.05 * rows, 0.037 * rows, 1};
      double yy[] = {-1.0 * halfw, 0, 1.0 * halfw};
      for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) {
        P3 a = {xs[i], yy[j], 0}, b = {xs[i+1], yy[j], 0}, c = {xs[i+1], yy[j+1], 0}, d = {xs[i], yy[j+1], 0};
        ts.push_back({{a, b, c}, 1}); ts.push_back({{a, c, d}, 1});
      }
      for (size_t i = 0; i < ts.size(); ++i) v.push_back(tri((int)i, 1, ts[i].v[0], ts[i].v[1], ts[i].v[2]));
      Pose ps = {0, 0, zc, 0, 0, 0};
      enve::rib rib(0, 0.3, 0, 0.05, 0);
      enve::ground::flat flat(1.0, ap({0,0,0}), av({0,0,1}));
      enve::output om, of;
      bool hm = rib.envelop(v, aff(ps), "geometric", om), hf = rib.envelop(flat, aff(ps), "geometric", of);
      MC_OK(hm && hf, "edge-status", "contact %d on the mesh, %d on the flat ground", hm, hf);
      mc::nontrivial();
      if (hm && hf) {
        bool same = near(om.area, of.area, 1e-9) && near(om.volume, of.volume, 1e-9);
        bool twice = near(om.area, 2 * of.area, 1e-9) && near(om.volume, 2 * of.volume, 1e-9);
        if (twice) mc::fail("edge-in-rib-plane", "area %.9g and volume %.9g are twice the flat-ground values", (double)om.area, (double)om.volume);
        else MC_OK(same, "edge-aggregate", "area %.9g volume %.9g, flat ground gives %.9g %.9g", (double)om.area, (double)om.volume, (double)of.area, (double)of.volume);
        MC_OK(near(om.friction, 1.0, 1e-9), "edge-friction", "friction %.9g", (double)om.friction);
        MC_OK(std::abs(om.point[2]) < 1e-9, "edge-point", "point %s", str(p3(om.point)).c_str());
      }
    }, [&] { return mc::fmt("flat mesh with edges exactly in the rib plane: rows %d half width %d, wheel height %g", rows, halfw, zc); });
  return mc::finish();
}
