// C13: ribs tile the wheel width and follow its profile, after any resizing.
#include "scene.hh"

static double prof(WheelDef const & d, double y) { return d.rx * std::pow(1 - std::pow(std::abs(y) / d.ry, d.my), 1 / d.mx); }
static double slope(WheelDef const & d, double y)
{ double a = std::abs(y) / d.ry; double s = -d.rx * d.my / (d.mx * d.ry) * std::pow(a, d.my - 1) * std::pow(1 - std::pow(a, d.my), 1 / d.mx - 1); return y < 0 ? -s : s; }
static void judge(enve::shell const & s, WheelDef const & d, size_t n, std::string const & w)
{
  MC_OK(s.size() == n, "count", "%s: %zu ribs, expected %zu", w.c_str(), s.size(), n);
  if (s.size() != n) return;
  double W = 2 * d.ly / n, sum = 0;
  for (size_t i = 0; i < n; ++i) {
    double y = -d.ly + W * (i + 0.5); P3 c = p3(s.ribCenter(i));
    MC_OK(std::abs(s.ribWidth(i) - W) < 1e-12 * d.ly, "width", "%s: rib %zu width %.15g, expected %.15g", w.c_str(), i, (double)s.ribWidth(i), W);
    MC_OK(c[0] == 0 && c[2] == 0 && std::abs(c[1] - y) < 1e-11 * d.ly, "center", "%s: rib %zu centre %s, expected y %.15g", w.c_str(), i, str(c).c_str(), y);
    double r = prof(d, y), a = std::abs(y) < 1e-6 * d.ry ? 0 : std::atan(slope(d, y)), k = 1 + std::abs(slope(d, y)) / d.rx * 1e-2;
    MC_OK(std::abs(s.ribRadius(i) - r) < 1e-9 * d.rx * k, "radius", "%s: rib %zu radius %.15g, profile %.15g", w.c_str(), i, (double)s.ribRadius(i), r);
    if (std::abs(y) > 1e-6 * d.ry || d.my > 1) MC_OK(std::abs(s.ribAngle(i) - a) < 1e-7, "angle", "%s: rib %zu angle %.15g, profile %.15g", w.c_str(), i, (double)s.ribAngle(i), a);
    sum += s.ribWidth(i);
    size_t j = n - 1 - i; P3 e = p3(s.ribCenter(j));
    MC_OK(std::abs(c[1] + e[1]) < 1e-11 * d.ly && std::abs(s.ribRadius(i) - s.ribRadius(j)) < 1e-8 * d.rx, "symmetry", "%s: ribs %zu and %zu are not symmetric", w.c_str(), i, j);
  }
  MC_OK(std::abs(sum - 2 * d.ly) < 1e-11 * d.ly, "tiling", "%s: widths sum to %.15g, wheel width %.15g", w.c_str(), sum, 2 * d.ly);
}
template <class F> static bool throws(F && f) { try { f(); } catch (std::exception const &) { return true; } return false; }

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<double> RX = {0.3, 1, 0.05}, MX = {1, 2, 4, 9, 0.7}, RY = {0.125, 0.2, 1}, MY = {1, 2, 3.5, 6, 8}, LF = {0.1, 0.5, 0.9, 1.0};
  if (th) { RX.push_back(17); MX.insert(MX.end(), {1.5, 3, 20}); RY.push_back(0.011); MY.insert(MY.end(), {1.2, 4, 15}); LF.insert(LF.end(), {0.3, 0.99}); }
  int N = th ? 96 : 48;
  std::vector<WheelDef> D;
  for (double rx : RX) for (double mx : MX) for (double ry : RY) for (double my : MY) for (double lf : LF) D.push_back({1, rx, mx, ry, my, ry * lf});
  for (auto const & d : D)
    mc::kase([&] {
      std::vector<int> ns; for (int n = 1; n <= N; ++n) ns.push_back(n); for (int n : {199, 200, 201, 257}) ns.push_back(n);
      auto h = mk(d);
      for (int n : ns) {
        WheelDef e = d; e.n = n; auto s = mk(e);
        judge(*s, d, n, mc::fmt("new shell of %d", n));
        h->resize(n); judge(*h, d, n, mc::fmt("resized to %d", n));
        mc::nontrivial(); mc::outcome(mc::mixd(mc::mixd(n, s->ribRadius(0)), s->ribCenter(0).y()));
      }
      for (size_t k = ns.size(); k-- > 0;) { h->resize(ns[k]); MC_OK(h->size() == (size_t)ns[k], "count", "shrunk to %d: %zu ribs", ns[k], h->size()); }
      judge(*h, d, ns[0], "shrunk back");
    }, [&] { return str(d) + " with every rib count"; });
  // all resize histories
  std::vector<int> S = {0, 1, 2, 3, 7, 250};
  WheelDef d = {4, 0.3, 2, 0.2, 4, 0.13};
  int L = th ? 6 : 4; long tot = 1; for (int i = 0; i < L; ++i) tot *= S.size();
  for (long c = 0; c < tot; ++c)
    mc::kase([&] {
      auto s = mk(d); size_t n = d.n; long k = c; std::string w = "resizes";
      for (int i = 0; i < L; ++i) {
        int m = S[k % S.size()]; k /= S.size(); w += mc::fmt(" %d", m);
        if (m == 0) MC_OK(throws([&] { s->resize(0); }), "zero", "%s: zero ribs accepted", w.c_str()); else { s->resize(m); n = m; }
        judge(*s, d, n, w); mc::nontrivial();
      }
    }, [&] { std::string w = "resizes"; long k = c; for (int i = 0; i < L; ++i) { w += mc::fmt(" %d", S[k % S.size()]); k /= S.size(); } return w; });
  // wheels wider than their profile: some sizes are refused, and a refused size leaves ribs and results as they were
  struct Wide { double ry, ly; }; std::vector<int> SW = {0, 1, 2, 3, 4, 9, 250};
  int LW = th ? 5 : 4; long tw = 1; for (int i = 0; i < LW; ++i) tw *= SW.size();
  for (Wide wd : {Wide{0.2, 0.4}, Wide{0.2, 0.28}, Wide{0.1, 0.11}}) for (long c = 0; c < tw; ++c)
    mc::kase([&] {
      WheelDef v = {1, 0.3, 2, wd.ry, 4, wd.ly}; auto s = mk(v); size_t n = 1; long k = c; std::string w = mc::fmt("profile half width %g, wheel half width %g, resizes", wd.ry, wd.ly);
      enve::ground::flat f(0.7, acme::point(0, 0, 0), acme::vec3(0.05, 0.1, 1)); acme::affine A = aff(Pose{0, 0, 0.25, 0.2, 0.05, 0}); std::vector<double> vol, now;
      for (int i = 0; i < LW; ++i) {
        int m = SW[k % SW.size()]; k /= SW.size(); w += mc::fmt(" %d", m); bool fits = m > 0 && wd.ly * (1 - 1.0 / m) < wd.ry;
        bool t = throws([&] { s->resize(m); }); MC_OK(t == !fits, "refuse", "%s: %s", w.c_str(), t ? "refused" : "accepted");
        if (t != !fits) return;
        if (fits) { n = m; judge(*s, v, n, w); s->setup(f, A, "geometric"); s->contactVolume(vol); }
        else { judge(*s, v, n, w); s->contactVolume(now); if (!vol.empty()) MC_OK(now == vol, "refuse", "%s: the refused size changed the contact results", w.c_str()); }
        mc::nontrivial();
      }
    }, [&] { std::string w = mc::fmt("wide wheel %g/%g, resizes", wd.ly, wd.ry); long k = c; for (int i = 0; i < LW; ++i) { w += mc::fmt(" %d", SW[k % SW.size()]); k /= SW.size(); } return w; });
  // refused shells
  struct Bad { char const * what; WheelDef d; bool bad; };
  std::vector<Bad> B = {
    {"zero ribs", {0, 0.3, 2, 0.2, 4, 0.1}, true}, {"zero radius", {3, 0, 2, 0.2, 4, 0.1}, true}, {"negative radius", {3, -0.3, 2, 0.2, 4, 0.1}, true},
    {"ribs beyond the profile", {10, 0.3, 2, 0.2, 4, 0.4}, true}, {"all ribs beyond the profile", {2, 0.3, 2, 0.2, 4, 0.5}, true}, {"rib exactly on the profile end", {2, 0.3, 2, 0.2, 4, 0.4}, true},
    {"odd degree beyond the profile", {9, 0.3, 1, 0.2, 4, 0.3}, true},
    {"one central rib of a too wide wheel", {1, 0.3, 2, 0.2, 4, 0.4}, false}, {"three ribs within the profile", {3, 0.3, 2, 0.2, 4, 0.28}, false}, {"NaN radius", {3, std::nan(""), 2, 0.2, 4, 0.1}, true}};
  for (auto const & b : B)
    mc::kase([&] {
      bool t = throws([&] { mk(b.d); });
      MC_OK(t == b.bad, "refuse", "%s: %s", b.what, t ? "refused" : "accepted"); mc::nontrivial();
    }, [&] { return std::string(b.what) + ", " + str(b.d); });
  // copies of ribs
  for (double r : {0.1, 0.3}) for (double y : {-0.05, 0.0, 0.07}) for (double wd : {0.01, 0.2}) for (double an : {-0.3, 0.0, 0.2})
    mc::kase([&] {
      enve::rib a(3, r, y, wd, an), b(9, 0.7, 0.9, 0.5, 1.1), c(a);
      b.copy(a);
      for (auto const * p : {&b, &c}) {
        MC_OK(p->radius() == r && p->width() == wd && p->angle() == an && p->center().y() == y && p->isApprox(a), "rib-copy", "copy has radius %g width %g angle %g y %g, equal %d", (double)p->radius(), (double)p->width(), (double)p->angle(), (double)p->center().y(), p->isApprox(a));
        enve::output o1, o2; acme::affine A = aff(Pose{0.3, 0.1, 0.05, 0.3, 0.2, 0.1}); enve::ground::flat f(0.7, acme::point(0,0,0), acme::vec3(0.1,0.05,1));
        bool r1 = a.envelop(f, A, "geometric", o1), r2 = p->envelop(f, A, "geometric", o2);
        MC_OK(r1 == r2 && beq(p3(o1.point), p3(o2.point)) && beq(o1.volume, o2.volume), "rib-copy-use", "copy evaluates differently");
      }
      MC_OK(!a.isApprox(enve::rib(3, r, y + 0.01, wd, an)) && !a.isApprox(enve::rib(3, r + 0.01, y, wd, an)) && !a.isApprox(enve::rib(3, r, y, wd + 0.01, an)) && !a.isApprox(enve::rib(3, r, y, wd, an + 0.01)), "rib-approx", "different ribs compare equal");
      mc::nontrivial();
    }, [&] { return mc::fmt("rib radius %g y %g width %g angle %g", r, y, wd, an); });
  return mc::finish();
}
