// C08: spin invariance (geometric) and equivariance under rigid motions of the scene.
#include "scene.hh"

static P3 yawrot(double a, P3 const & v) { return {std::cos(a)*v[0]-std::sin(a)*v[1], std::sin(a)*v[0]+std::cos(a)*v[1], v[2]}; }
static Ground moved(Ground const & g, double a, P3 const & d)
{ Ground h = g; h.o = yawrot(a, g.o) + d; h.n = yawrot(a, g.n); for (auto & t : h.t) for (auto & v : t.v) v = yawrot(a, v) + d; return h; }

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto W = wheels(); auto G = grounds(th);
  std::vector<double> yaw = {3, 100.3, 217}, cam = {0, 8, -21}, zs = {0.13, 0.22, 0.28, 0.5};
  if (th) { for (double a : {-70.1, 33.3}) yaw.push_back(a); for (double a : {-3., 45., 70., 178.}) cam.push_back(a); zs = {0.05, 0.13, 0.19, 0.22, 0.25, 0.28, 0.31, 0.5}; }
  std::vector<double> spins = {17, 45, 90, 137, 180, 226, 270, 315, 359};
  if (th) for (int k = 1; k < 36; ++k) spins.push_back(10 * k + 1.5);
  struct Mo { double a; P3 d; };
  std::vector<Mo> mo = {{90, {-1e5, 3.3e4, 250}}, {0, {512345, 5.04e6, 250}}, {0, {1, 2, 3}}, {0, {640.5, -1215.25, 17}}, {90, {0, 0, 0}}, {33, {-2, 0.5, -0.25}}, {180, {10, 0, 0}}, {271.3, {-300.25, 80, -9}}};
  if (th) { mo.push_back({12.5, {0,0,0}}); mo.push_back({-90, {1e4, 1e4, 100}}); mo.push_back({147, {3e3, -2, 0}}); mo.push_back({-61, {5e6, 1.1e6, -300}}); mo.push_back({0, {0, -3e6, 0}}); mo.push_back({-61, {2e5, 1.1e5, -300}}); mo.push_back({0, {0, -2e5, 0}}); }
  for (size_t gi = 0; gi < G.size(); ++gi) for (auto const & wd : W) for (double ya : yaw) for (double ca : cam)
    mc::kase([&] {
      GObj go = mkGround(G[gi]);
      for (double z : zs) for (double xo : {0.0137, -0.2091}) {
        double zz = z * (wd.rx / 0.3);
        Pose ps = {xo, 0.5 * xo + 0.0043, zz, ya * DEG, ca * DEG, 5 * DEG};
        auto s = mk(wd);
        Snap a = snap(*s, setup(*s, go, aff(ps), "geometric"));
        if (a.ret) mc::nontrivial();
        mc::outcome(hash(a));
        double R = wd.rx;
        for (double sp : spins) { // turning about the axle
          Pose q = ps; q.spin += sp * DEG;
          auto s2 = mk(wd);
          Snap b = snap(*s2, setup(*s2, go, aff(q), "geometric"));
          std::string w = mc::fmt("%s turned by %g", str(ps).c_str(), sp);
          MC_OK(a.ret == b.ret, "spin-status", "%s: contact %d became %d", w.c_str(), a.ret, b.ret);
          for (size_t i = 0; i < a.n; ++i) {
            bool ia = a.vs[i] > 0, ib = b.vs[i] > 0;
            MC_OK(ia == ib, "spin-rib-status", "%s: rib %zu contact %d became %d", w.c_str(), i, ia, ib);
            if (!ia || !ib) continue;
            double wd_ = 1e-8 * R, lo = 1e-7 * std::max(1.0, 1e-6 * R * R * wd.ly / a.vs[i]);
            MC_OK(std::abs(a.as[i] - b.as[i]) < wd_ && std::abs(a.vs[i] - b.vs[i]) < wd_ * R, "spin-size", "%s: rib %zu area %.12g/%.12g volume %.12g/%.12g", w.c_str(), i, a.as[i], b.as[i], a.vs[i], b.vs[i]);
            MC_OK(near(a.pts[i], b.pts[i], lo) && near(a.nrs[i], b.nrs[i], 10 * lo), "spin-point", "%s: rib %zu point %s/%s normal %s/%s", w.c_str(), i, str(a.pts[i]).c_str(), str(b.pts[i]).c_str(), str(a.nrs[i]).c_str(), str(b.nrs[i]).c_str());
            MC_OK(near(a.fs[i], b.fs[i], lo) && near(a.ds[i], b.ds[i], lo), "spin-depth", "%s: rib %zu friction %.10g/%.10g depth %.10g/%.10g", w.c_str(), i, a.fs[i], b.fs[i], a.ds[i], b.ds[i]);
          }
          if (a.ret && b.ret && a.v > std::max(3e-8, 1e-7 * R * R * wd.ly)) // totals fall back to plain means under 1.5e-8
            MC_OK(near(a.pt, b.pt, 1e-6) && near(a.nr, b.nr, 1e-6) && near(a.f, b.f, 1e-6) && near(a.d, b.d, 1e-6) && near(a.a, b.a, 1e-7) && near(a.v, b.v, 1e-7), "spin-total",
                  "%s: totals changed, point %s/%s area %.10g/%.10g volume %.10g/%.10g", w.c_str(), str(a.pt).c_str(), str(b.pt).c_str(), a.a, b.a, a.v, b.v);
          mc::transition();
        }
      }
    }, [&] { return mc::fmt("spin: %s, %s, yaw %g, camber %g, all heights and spins", G[gi].name.c_str(), str(wd).c_str(), ya, ca); });
  for (size_t gi = 0; gi < G.size(); ++gi) for (auto const & m : mo) for (auto const & wd : W) for (double ya : yaw) if (G[gi].flat || norm(m.d) < 3e5) // farther, rounding reaches the mesh tolerance
    mc::kase([&] {
      GObj go = mkGround(G[gi]), gm = mkGround(moved(G[gi], m.a * DEG, m.d));
      double D = norm(m.d), tol = 1e-10 + 1e-13 * D;
      for (double ca : cam) for (double z : zs) for (double sp : {0.0, 77.0}) for (int me = 0; me < 2; ++me) {
        Pose ps = {0.0137, 0.0071, z * (wd.rx / 0.3), ya * DEG, ca * DEG, sp * DEG};
        P3 t = yawrot(m.a * DEG, {ps.x, ps.y, ps.z}) + m.d;
        Pose q = {t[0], t[1], t[2], ps.yaw + m.a * DEG, ps.camber, ps.spin};
        auto s = mk(wd), s2 = mk(wd);
        Snap a = snap(*s, setup(*s, go, aff(ps), METHODS[me])), b = snap(*s2, setup(*s2, gm, aff(q), METHODS[me]));
        if (a.ret) mc::nontrivial();
        mc::outcome(hash(a));
        std::string w = mc::fmt("%s %s", METHODS[me], str(ps).c_str());
        MC_OK(a.ret == b.ret, "move-status", "%s: contact %d became %d", w.c_str(), a.ret, b.ret);
        auto mp = [&](P3 const & p) { return yawrot(m.a * DEG, p) + m.d; };
        auto mv = [&](P3 const & p) { return yawrot(m.a * DEG, p); };
        for (size_t i = 0; i < a.n; ++i) {
          double R = wd.rx, lo = tol * (a.vs[i] > 0 ? std::max(1.0, 1e-3 * R * R * wd.ly / a.vs[i]) : 1.0) * 10;
          bool ia = a.vs[i] > 0, ib = b.vs[i] > 0;
          MC_OK(ia == ib, "move-rib-status", "%s: rib %zu contact %d became %d", w.c_str(), i, ia, ib);
          if (ia != ib) continue;
          MC_OK(norm(mp(a.pts[i]) - b.pts[i]) < lo * 10, "move-point", "%s: rib %zu point %s, moved scene gives %s", w.c_str(), i, str(mp(a.pts[i])).c_str(), str(b.pts[i]).c_str());
          MC_OK(norm(mv(a.nrs[i]) - b.nrs[i]) < lo * 100, "move-normal", "%s: rib %zu normal %s, moved scene gives %s", w.c_str(), i, str(mv(a.nrs[i])).c_str(), str(b.nrs[i]).c_str());
          MC_OK(std::abs(a.fs[i] - b.fs[i]) < lo * 10 && std::abs(a.ds[i] - b.ds[i]) < lo * 10, "move-depth", "%s: rib %zu friction %.10g/%.10g depth %.10g/%.10g", w.c_str(), i, a.fs[i], b.fs[i], a.ds[i], b.ds[i]);
          MC_OK(std::abs(a.as[i] - b.as[i]) < lo && std::abs(a.vs[i] - b.vs[i]) < lo, "move-size", "%s: rib %zu area %.10g/%.10g volume %.10g/%.10g", w.c_str(), i, a.as[i], b.as[i], a.vs[i], b.vs[i]);
        }
        if (std::min(a.v, b.v) < 3e-8 && std::max(a.v, b.v) > 0) continue;
        double lt = tol * 100 * (a.ret ? std::max(1.0, 1e-3 * wd.rx * wd.rx * wd.ly / a.v) : 1.0);
        MC_OK(norm(mp(a.pt) - b.pt) < lt && norm(mv(a.nr) - b.nr) < 10 * lt && std::abs(a.f - b.f) < lt && std::abs(a.d - b.d) < lt && std::abs(a.a - b.a) < lt && std::abs(a.v - b.v) < lt,
              "move-total", "%s: totals do not follow the motion, point %s/%s", w.c_str(), str(mp(a.pt)).c_str(), str(b.pt).c_str());
        mc::transition();
      }
    }, [&] { return mc::fmt("motion: %s moved by yaw %g and %s, %s, yaw %g, all cambers, heights, methods", G[gi].name.c_str(), m.a, str(m.d).c_str(), str(wd).c_str(), ya); });
  return mc::finish();
}
