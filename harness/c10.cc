// C10: preselection by box and by rib never loses nor duplicates a triangle.
#include "scene.hh"

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto W = wheels(); W.push_back({5, 0.3, 2, 1.2, 2, 0.9}); W.push_back({9, 0.05, 2, 0.5, 8, 0.4}); W.push_back({64, 0.3, 2, 0.2, 4, 0.16}); W.push_back({201, 0.31, 4, 0.4, 8, 0.3}); // many thin ribs, in fewer poses
  auto G0 = grounds(true);
  std::vector<Ground> G; for (auto & g : G0) if (!g.flat) G.push_back(g);
  { // kerbs and walls next to the wheel, hit only by outer rims
    Ground w; w.name = "walls"; 
    for (int i = 0; i < 8; ++i) { double a = 0.7854 * i + 0.05, r = 0.345 + 0.02 * i; P3 n = {std::cos(a), std::sin(a), 0}, t = {-std::sin(a), std::cos(a), 0}; P3 c = r * n;
      w.t.push_back({{c - 0.3 * t + P3{0,0,-0.4}, c + 0.3 * t + P3{0,0,-0.4}, c + P3{0.01,0.02,0.61}}, 0.5 + 0.1 * i}); }
    G.push_back(w);
    Ground f = gridGround("offset bumpy", 499.2, 500.8, 7, -300.9, -299.3, 8, [](double, double, int i, int j) { return 12 + bump(i, j, 0.12); }); G.push_back(f);
    Ground h = gridGround("huge triangles", -4000, 4100, 1, -4000, 4200, 2, [](double x, double y, int, int) { return 1e-3 * x + 5e-4 * y; }); G.push_back(h);
  }
  std::vector<double> yaw = {1.5, 46, 93.1, 211}, cam = {0, -9, 33, 90, 160}, spin = {0, 61}, zf = {-0.1, 0.4, 0.8, 0.97, 1.1, 1.6};
  if (th) { for (double a : {-71., 133.3, 270.9, 12.}) yaw.push_back(a); for (double a : {3., 58., -70., 120., 181.}) cam.push_back(a); spin = {0, 61, 135, 250}; for (double z : {0.2, 0.6, 0.9, 1.3}) zf.push_back(z); }
  for (auto const & g : G) for (auto const & wd : W) for (double ya : yaw) for (double ca : cam) if (wd.n < 40 || (ya == yaw[1] && (ca == 0 || (ca == 33 && (wd.n < 100 || th)))))
    mc::kase([&] {
      enve::ground::mesh mesh(tv(g.t));
      TVec all = mesh.vecptrTriangleground();
      enve::ground::flat fl(1.0, ap({0,0,0}), av({0,0,1}));
      P3 o = g.name == "offset bumpy" ? P3{500, -300, 12} : P3{0, 0, 0};
      for (double sp : spin) for (double z : zf) for (P3 xy : {P3{0.0137, 0.0071, 0}, P3{-1.13, 0.31, 0}, P3{0.93, 0.83, 0}}) for (int me = 0; me < 2; ++me) {
        if (wd.n > 40 && (sp != 61 || xy[0] > 0.5)) continue;
        Pose ps = {o[0] + xy[0], o[1] + xy[1], o[2] + z * wd.rx, ya * DEG, ca * DEG, sp * DEG};
        auto s = mk(wd);
        bool ret = s->setup(mesh, aff(ps), METHODS[me]);
        Snap a = snap(*s, ret);
        std::string w = mc::fmt("%s %s", METHODS[me], str(ps).c_str());
        M3 R = rot(ps); P3 org = {ps.x, ps.y, ps.z};
        P3 lo = p3(s->bbox()->min()), hi = p3(s->bbox()->max());
        TVec sel;
        if (me == 0) sel = all;
        else for (auto const & t : all) {
          bool ov = true; bool edge = false;
          for (int k = 0; k < 3; ++k) { double tl = 1e300, tu = -1e300; for (int j = 0; j < 3; ++j) { tl = std::min(tl, (double)t->vertex(j)[k]); tu = std::max(tu, (double)t->vertex(j)[k]); } if (tl > hi[k] || tu < lo[k]) ov = false; if (tl == hi[k] || tu == lo[k]) edge = true; }
          if (ov) sel.push_back(t);
          (void)edge;
        }
        bool any = false;
        for (size_t i = 0; i < s->size(); ++i) {
          P3 lc = p3(s->ribCenter(i)); double r = s->ribRadius(i);
          P3 c = org + lc[0] * R[0] + lc[1] * R[1] + lc[2] * R[2];
          for (int k = 0; k < 3; ++k) {
            double e = r * std::sqrt(std::max(0.0, 1 - R[1][k] * R[1][k]));
            MC_OK(lo[k] <= c[k] - e + 1e-9 && hi[k] >= c[k] + e - 1e-9, "bbox", "%s: box axis %d [%g,%g] does not contain rib %zu [%g,%g]", w.c_str(), k, lo[k], hi[k], i, c[k] - e, c[k] + e);
          }
          enve::rib rib((acme::integer)i, r, lc[1], s->ribWidth(i), s->ribAngle(i));
          enve::output out; bool hit = rib.envelop(sel, aff(ps), METHODS[me], out);
          any = any || hit;
          bool sh = a.vs[i] > 0 || a.as[i] > 0;
          MC_OK(hit == sh, "rib-status", "%s: rib %zu contact %d, against the whole mesh %d", w.c_str(), i, sh, hit);
          if (hit != sh) continue;
          mc::nontrivial(hit);
          double tol = 1e-8 * (1 + 1e-2 * norm(ps.x * R[0])) * (hit ? std::max(1.0, 1e-5 * wd.rx * wd.rx * wd.ly / out.volume) : 1.0);
          MC_OK(near(a.pts[i], p3(out.point), tol) && near(a.nrs[i], p3(out.normal), 10 * tol) && near(a.fs[i], out.friction, tol) && near(a.ds[i], out.depth, tol) && near(a.as[i], out.area, 1e-9) && near(a.vs[i], out.volume, 1e-9),
                "rib-output", "%s: rib %zu point %s area %.12g volume %.12g friction %.9g, against the whole mesh %s %.12g %.12g %.9g", w.c_str(), i, str(a.pts[i]).c_str(), a.as[i], a.vs[i], a.fs[i],
                str(p3(out.point)).c_str(), (double)out.area, (double)out.volume, (double)out.friction);
        }
        MC_OK(ret == any, "return", "%s: setup returned %d, some rib in contact %d", w.c_str(), ret, any);
        mc::outcome(hash(a));
        // the box follows the wheel also when it is set on flat ground
        Pose pf = {ps.x + 3 * wd.rx, ps.y - 5 * wd.rx, ps.z + wd.rx, ps.yaw + 0.3, ps.camber + 0.2, ps.spin}; M3 Rf = rot(pf);
        s->setup(fl, aff(pf), METHODS[me]); lo = p3(s->bbox()->min()); hi = p3(s->bbox()->max());
        for (size_t i = 0; i < s->size(); ++i) {
          P3 lc = p3(s->ribCenter(i)), c = P3{pf.x, pf.y, pf.z} + lc[0] * Rf[0] + lc[1] * Rf[1] + lc[2] * Rf[2];
          for (int k = 0; k < 3; ++k) {
            double e = s->ribRadius(i) * std::sqrt(std::max(0.0, 1 - Rf[1][k] * Rf[1][k]));
            MC_OK(lo[k] <= c[k] - e + 1e-9 && hi[k] >= c[k] + e - 1e-9, "bbox-flat", "%s then flat ground at %s: box axis %d [%g,%g] does not contain rib %zu [%g,%g]", w.c_str(), str(pf).c_str(), k, lo[k], hi[k], i, c[k] - e, c[k] + e);
          }
        }
      }
    }, [&] { return mc::fmt("%s (%zu triangles), %s, yaw %g, camber %g, all spins, heights, places, methods", g.name.c_str(), g.t.size(), str(wd).c_str(), ya, ca); });
  return mc::finish();
}
