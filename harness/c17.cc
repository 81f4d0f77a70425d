// C17: idle outputs of ribs out of contact; contact outputs finite and in range.
#include "scene.hh"

static void judge(Ground const & g, enve::shell const & s, Snap const & a, WheelDef const & wd, Pose const & ps, std::string const & w, bool mustIdle, double f0, double f1)
{
  M3 W = rot(ps); P3 o = {ps.x, ps.y, ps.z};
  bool any = false;
  for (size_t i = 0; i < a.n; ++i) {
    bool idle = a.vs[i] == 0 && a.as[i] == 0;
    MC_OK(!mustIdle || idle, "idle-status", "%s: rib %zu reports area %.12g volume %.12g where nothing can be touched", w.c_str(), i, a.as[i], a.vs[i]);
    if (idle) {
      double y = -wd.ly + 2 * wd.ly / wd.n * (i + 0.5), R = s.ribRadius(i);
      P3 b = o + (y * W[1] - R * W[2]);
      MC_OK(norm(a.pts[i] - b) < 1e-9 * (1 + norm(b)), "idle-point", "%s: rib %zu idle point %s, expected %s", w.c_str(), i, str(a.pts[i]).c_str(), str(b).c_str());
      MC_OK(norm(a.nrs[i] - W[2]) < 1e-9, "idle-normal", "%s: rib %zu idle normal %s, expected %s", w.c_str(), i, str(a.nrs[i]).c_str(), str(W[2]).c_str());
      MC_OK(a.fs[i] == 0 && a.ds[i] == 0, "idle-zero", "%s: rib %zu idle friction %g depth %g", w.c_str(), i, a.fs[i], a.ds[i]);
    } else {
      any = true;
      double R = s.ribRadius(i);
      MC_OK(finite(a.pts[i]) && finite(a.nrs[i]) && std::isfinite(a.fs[i]) && std::isfinite(a.ds[i]) && std::isfinite(a.as[i]) && std::isfinite(a.vs[i]), "finite",
            "%s: rib %zu has a non-finite output (point %s, normal %s, friction %g, depth %g, area %g, volume %g)", w.c_str(), i, str(a.pts[i]).c_str(), str(a.nrs[i]).c_str(), a.fs[i], a.ds[i], a.as[i], a.vs[i]);
      MC_OK(a.ds[i] > -1e-9 && a.ds[i] < 2 * R + 1e-9, "depth-range", "%s: rib %zu depth %.12g with radius %.12g", w.c_str(), i, a.ds[i], R);
      MC_OK(a.as[i] >= 0 && a.vs[i] > -1e-8 * R * R, "size-positive", "%s: rib %zu area %.12g volume %.12g", w.c_str(), i, a.as[i], a.vs[i]);
      MC_OK(a.fs[i] > f0 - 1e-9 && a.fs[i] < f1 + 1e-9, "friction-range", "%s: rib %zu friction %.12g outside [%g,%g]", w.c_str(), i, a.fs[i], f0, f1);
    }
  }
  MC_OK(a.ret == any, "flag", "%s: returned %d but ribs say %d", w.c_str(), a.ret, any);
  if (!a.ret) {
    MC_OK(a.v == 0 && a.a == 0 && a.d == 0 && a.f == 0, "idle-total", "%s: idle totals volume %g area %g depth %g friction %g", w.c_str(), a.v, a.a, a.d, a.f);
    MC_OK(finite(a.pt) && norm(a.nr - W[2]) < 1e-9, "idle-total", "%s: idle total normal %s", w.c_str(), str(a.nr).c_str());
  } else
    MC_OK(finite(a.pt) && finite(a.nr) && std::isfinite(a.f) && std::isfinite(a.d), "finite-total", "%s: non-finite totals", w.c_str());
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto G = grounds(th); auto E = emptyGrounds(); size_t nE = G.size(); G.insert(G.end(), E.begin(), E.end());
  auto fr = [](Ground const & g, double & f0, double & f1) { f0 = 1e9; f1 = -1e9; if (g.flat) f0 = f1 = g.f; for (auto const & t : g.t) { f0 = std::min(f0, t.f); f1 = std::max(f1, t.f); } };
  std::set<std::string> en; for (auto const & e : E) en.insert(e.name); (void)nE;
  Grid gr = grid(th); gr.z.push_back(1.7); gr.z.push_back(-0.25);
  scenes(G, wheels(), gr, [&](Ground const & g, GObj const & go, WheelDef const & wd, Pose const & ps, std::string const & me) {
    auto s = mk(wd);
    Snap a = snap(*s, setup(*s, go, aff(ps), me));
    double f0, f1; fr(g, f0, f1);
    bool idle = en.count(g.name) > 0 && !(g.name == "high mesh" && me == "sampling"); // a probe line also meets ground above
    if (!g.flat && ps.z > 1.6 * wd.rx / 0.3 && me == "geometric") idle = true;        // grounds are lower than 0.6
    if (a.ret || idle) mc::nontrivial();
    mc::outcome(hash(a));
    judge(g, *s, a, wd, ps, me + " " + str(ps), idle, f0, f1);
  });
  // walls seen edge-on, triangles grazing, wheels inside the ground, exact alignments
  std::vector<Ground> X;
  for (double x0 : {0.0, 0.05, -0.31}) for (double top : {0.0, 0.1, 0.5}) { Ground s; s.name = mc::fmt("wall x=%g top %g", x0, top);
    s.t.push_back({{{x0, -1, top}, {x0, 1, top}, {x0, 0, top - 3}}, 0.6}); X.push_back(s);
    s.name += " and floor"; s.t.push_back({{{-2, -1, -0.05}, {2, -1, -0.05}, {0, 3, -0.05}}, 0.9}); X.push_back(s); }
  for (double y0 : {0.0, 0.05, 0.2}) { Ground s; s.name = mc::fmt("side wall y=%g", y0); s.t.push_back({{{-1, y0, 0.2}, {1, y0, 0.2}, {0, y0, -3}}, 0.6}); X.push_back(s); }
  for (double h : {0.0, 0.3, -0.3, 0.6, 0.1}) { Ground s; s.name = mc::fmt("aligned floor z=%g", h); s.t.push_back({{{-1, -1, h}, {1, -1, h}, {1, 1, h}}, 0.4}); s.t.push_back({{{-1, -1, h}, {1, 1, h}, {-1, 1, h}}, 0.7}); X.push_back(s);
    Ground f = flatGround(0, 0, 0.45, h); X.push_back(f); }
  { Ground s; s.name = "tiny triangles"; for (int i = 0; i < 9; ++i) { double d = 1e-3 * (i + 1), x = 0.02 * (i - 4); s.t.push_back({{{x, -d, 0.01}, {x + d, d, 0.011}, {x - d, d, 0.012}}, 0.2}); } X.push_back(s); }
  { Ground s; s.name = "huge triangle"; s.t.push_back({{{-1e4, -1e4, 0.01}, {1e4, -1e4, 0.01}, {0, 2e4, 0.01}}, 0.2}); X.push_back(s); }
  std::vector<double> yaw = {0, 90, 180, 270, 45}, cam = {0, 90, -90, 180, 10}, spin = {0, 90, 180}, zz = {0, 0.1, 0.3, 0.35, 0.6, -0.2};
  for (size_t gi = 0; gi < X.size(); ++gi) for (auto const & wd : wheels()) for (double ya : yaw)
    mc::kase([&] {
      GObj go = mkGround(X[gi]); double f0, f1; fr(X[gi], f0, f1);
      for (double ca : cam) for (double sp : spin) for (double z : zz) for (double x : {0.0, 0.05, -0.4}) for (int me = 0; me < 2; ++me) {
        Pose ps = {x, 0, z, ya * DEG, ca * DEG, sp * DEG};
        auto s = mk(wd);
        Snap a = snap(*s, setup(*s, go, aff(ps), METHODS[me]));
        if (a.ret) mc::nontrivial();
        mc::outcome(hash(a));
        judge(X[gi], *s, a, wd, ps, std::string(METHODS[me]) + " " + str(ps), false, f0, f1);
        mc::transition();
      }
    }, [&] { return mc::fmt("aligned: %s, %s, yaw %g, all cambers, spins, heights, offsets and methods", X[gi].name.c_str(), str(wd).c_str(), ya); });
  return mc::finish();
}
