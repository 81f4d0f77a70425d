// C06: a rib on flat ground, geometric enveloping: the exact circle chord.
#include "common.hh"

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<std::array<double,3>> ribs = {{0.3, 0.0, 0.1}, {0.3, 0.12, 0.05}, {1.0, -0.25, 0.3}, {0.05, 0.004, 0.002}, {2.2, 0.4, 0.6}, {0.012, 0.001, 0.003}};
  if (th) { ribs.push_back({20, 3, 1.5}); ribs.push_back({0.31, -0.07, 0.035}); }
  std::vector<double> yaw = {0, 37, 90, 180, -143}, cam = {0, 5, -20, 45, 90, 133, 180}, spin = {0, 29, 90, 180, -90, 201};
  if (th) { for (double a : {-5., 61., -90., 269.}) { yaw.push_back(a); } for (double a : {-1., 2., 12., -70., 110., -160.}) cam.push_back(a); for (double a : {45., 135., 300.}) spin.push_back(a); }
  std::vector<P3> tr = {{0, 0, 0}, {120.5, -33.25, 4}, {-1e3, 2e3, -50}};
  std::vector<std::array<double,2>> slope = {{0, 0}, {10, 0}, {10, 90}, {25, 211}, {60, 40}, {89, 100}};
  if (th) { slope.push_back({1, 17}); slope.push_back({45, 300}); slope.push_back({75, 0}); }
  std::vector<double> T = {-2, -1.3, -1.000001, -0.999999, -0.9, -0.4, -1e-3, 0, 1e-3, 0.1, 0.35, 0.7, 0.95, 0.999, 0.999999, 1.000001, 1.001, 1.2, 5};
  if (th) for (int k = -19; k < 20; ++k) T.push_back(k / 19.5);
  std::vector<double> fr = {0, 0.5, 1, 7};
  for (auto const & rb : ribs) for (size_t ti = 0; ti < tr.size(); ++ti) for (double ya : yaw) for (double ca : cam) for (double sp : spin)
    mc::kase([&] {
      Pose ps = {tr[ti][0], tr[ti][1], tr[ti][2], ya * DEG, ca * DEG, sp * DEG};
      M3 R = rot(ps); P3 o = {ps.x, ps.y, ps.z};
      enve::rib rib(3, rb[0], rb[1], rb[2], 0.1);
      double r = rb[0], w = rb[2];
      P3 c = o + rb[1] * R[1];
      int fi = 0;
      for (auto const & sl : slope) {
        double a = sl[0] * DEG, b = sl[1] * DEG;
        P3 g = {std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a)};
        // component of the ground normal in the rib plane
        P3 q = g - dot(g, R[1]) * R[1];
        double s = norm(q);
        bool parallel = s < 1e-9;
        if (!parallel && s < 0.01) continue;
        for (double t : T) {
          double scaleLen = 1 + norm(o);
          if (std::abs(std::abs(t) - 1) * r * (parallel ? 1 : s) < 1e-13 * scaleLen * scaleLen) continue; // grazing within rounding
          double d = t * r * (parallel ? 1 : s);              // signed distance of the centre over the plane
          if (!parallel && std::abs(t) < 1 && r * r * (1 - t * t) < 5e-8) continue;      // below the library's resolution
          if (parallel && std::abs(d) < 1e-6 * scaleLen) continue;
          double f = fr[fi++ % fr.size()];
          P3 tang = unit(std::abs(g[0]) < 0.9 ? cross(g, P3{1,0,0}) : cross(g, P3{0,1,0}));
          for (double shift : {0.0, 3.75}) {
            P3 org = c - d * g + shift * tang;
            enve::ground::flat gr(f, ap(org), av(2.5 * g));
            enve::output out;
            bool hit = rib.envelop(gr, aff(ps), "geometric", out);
            bool exp = !parallel && std::abs(t) < 1;
            std::string w0 = mc::fmt("slope(%g,%g) t=%.9g shift=%g", sl[0], sl[1], t, shift);
            MC_OK(hit == exp, "status", "%s: contact %d, expected %d", w0.c_str(), hit, exp);
            if (hit != exp) continue;
            mc::outcome(mc::mixd(mc::mixd(hit, out.depth), out.volume));
            if (!exp) {
              MC_OK(near(p3(out.point), c - r * R[2]) && near(p3(out.normal), R[2]) && out.friction == 0 && out.depth == 0 && out.area == 0 && out.volume == 0,
                    "idle", "%s: outputs without contact are not idle", w0.c_str());
              continue;
            }
            mc::nontrivial();
            double tol = 1e-10 * scaleLen;
            P3 m = c - (t * r / s) * q;  // foot of the chord: |m - c| = |t| r
            m = c - (d / (s * s)) * q;
            double dep = r - std::abs(d) / s;
            double half = std::sqrt(std::max(0.0, r * r - (r - dep) * (r - dep)));
            double area = 2 * half * w, vol = (r * r * std::acos((r - dep) / r) - (r - dep) * half) * w;
            double gz = 1 / std::max(1e-3, std::sqrt(dep / r)); // conditioning next to grazing
            MC_OK(norm(p3(out.point) - m) <= tol * 20 / s, "point", "%s: point %s, expected %s", w0.c_str(), str(p3(out.point)).c_str(), str(m).c_str());
            MC_OK(norm(p3(out.normal) - g) <= 1e-7, "normal", "%s: normal %s, expected %s", w0.c_str(), str(p3(out.normal)).c_str(), str(g).c_str());
            MC_OK(std::abs(out.depth - dep) <= 20 * tol / s, "depth", "%s: depth %.12g, expected %.12g", w0.c_str(), (double)out.depth, dep);
            MC_OK(std::abs(out.area - area) <= 100 * tol * gz / s * w, "area", "%s: area %.12g, expected %.12g", w0.c_str(), (double)out.area, area);
            MC_OK(std::abs(out.volume - vol) <= 100 * tol / s * w * r, "volume", "%s: volume %.12g, expected %.12g", w0.c_str(), (double)out.volume, vol);
            MC_OK(out.friction == f, "friction", "%s: friction %g, expected %g", w0.c_str(), (double)out.friction, f);
          }
        }
      }
    }, [&] { return mc::fmt("rib(R=%g,y=%g,w=%g) at %s yaw %g camber %g spin %g on all slopes and depths", rb[0], rb[1], rb[2], str(tr[ti]).c_str(), ya, ca, sp); });
  // whole wheels set on flat ground: each rib gets its own chord, however far the wheel centre is
  struct W { size_t n; double rx, mx, ry, my, ly; };
  for (W const & wd : std::vector<W>{{1, 0.3, 2, 0.2, 4, 0.1}, {4, 0.3, 2, 0.4, 4, 0.3}, {6, 0.3, 8, 1.3, 8, 1.2}, {9, 0.31, 2, 0.15, 2, 0.14}, {2, 1.0, 2, 1.1, 4, 0.9}})
    for (double ya : yaw) for (double ca : cam)
      mc::kase([&] {
        enve::shell s(wd.n, wd.rx, wd.mx, wd.ry, wd.my, wd.ly), keep(wd.n, wd.rx, wd.mx, wd.ry, wd.my, wd.ly);
        for (double sp : {0.0, 77.0}) for (auto const & sl : slope) for (size_t k = 0; k < 2 * wd.n; ++k) for (double t : {-1.2, -0.7, 0.02, 0.4, 0.9, 0.999, 1.02, 1.6}) {
          size_t rk = k / 2; double a = sl[0] * DEG, b = sl[1] * DEG, f = 0.25 * (1 + k);
          P3 g = {std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a)};
          Pose ps = {0.7, -0.4, 1.3, ya * DEG, ca * DEG, sp * DEG}; M3 R = rot(ps); P3 o = {ps.x, ps.y, ps.z};
          P3 q0 = g - dot(g, R[1]) * R[1]; double s0 = norm(q0);
          if (s0 < 0.05) continue;
          // the plane at t radii below the centre of rib rk
          P3 ck = o + s.ribCenter(rk).y() * R[1]; P3 org = ck - (t * s.ribRadius(rk) * s0) * g + (k % 2 ? 2.5 : -0.1) * unit(cross(g, std::abs(g[0]) < 0.9 ? P3{1,0,0} : P3{0,1,0}));
          enve::ground::flat gr(f, ap(org), av(0.5 * g));
          enve::shell & u = k % 2 ? keep : s;
          bool any = false, ret = u.setup(gr, aff(ps), "geometric"), unclear = false;
          std::string w0 = mc::fmt("spin %g slope(%g,%g) plane %g radii under rib %zu", sp, sl[0], sl[1], t, rk);
          for (size_t i = 0; i < wd.n; ++i) {
            double r = u.ribRadius(i), w = u.ribWidth(i); P3 c = o + u.ribCenter(i).y() * R[1];
            double d = dot(c - org, g) / s0, v; u.contactVolume(i, v);
            if (std::abs(std::abs(d) - r) < 1e-6) { unclear = true; continue; }
            bool exp = std::abs(d) < r; any = any || exp;
            double h = std::sqrt(std::max(0.0, r * r - d * d)), dep, ar, fr; u.contactDepth(i, dep); u.contactArea(i, ar); u.contactFriction(i, fr);
            acme::point p; acme::vec3 nn; u.contactPoint(i, p); u.contactNormal(i, nn);
            if (exp) {
              double ad = std::abs(d), vol = (r * r * std::acos(ad / r) - ad * h) * w;
              P3 m = c - (d / s0) * q0;
              double gz = 1 / std::max(1e-3, std::sqrt((r - ad) / r));
              MC_OK(norm(p3(p) - m) < 1e-8 / s0 && norm(p3(nn) - g) < 1e-7 && std::abs(dep - (r - ad)) < 1e-8 / s0 && std::abs(ar - 2 * h * w) < 1e-8 * gz / s0 && std::abs(v - vol) < 1e-8 / s0 && fr == f,
                    "wheel", "%s: rib %zu gets point %s depth %.10g area %.10g volume %.10g friction %g, expected %s %.10g %.10g %.10g %g", w0.c_str(), i, str(p3(p)).c_str(), dep, ar, v, fr, str(m).c_str(), r - ad, 2 * h * w, vol, f);
              mc::nontrivial();
            } else
              MC_OK(near(p3(p), c - r * R[2]) && near(p3(nn), R[2]) && fr == 0 && dep == 0 && ar == 0 && v == 0, "wheel-idle", "%s: rib %zu is not idle", w0.c_str(), i);
          }
          if (!unclear) MC_OK(ret == any, "wheel-status", "%s: setup returned %d, expected %d", w0.c_str(), ret, any);
        }
      }, [&] { return mc::fmt("wheel(n=%zu Rx=%g Ry=%g Ly=%g), yaw %g camber %g, all slopes and heights", wd.n, wd.rx, wd.ry, wd.ly, ya, ca); });
  return mc::finish();
}
