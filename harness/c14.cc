// C14: the wheel profile is the stated hyperellipse.
#include "scene.hh"
template <class F> static bool throws(F && f) { try { f(); } catch (std::exception const &) { return true; } return false; }

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  std::vector<double> RX = {0.3, 1, 0.05, 13}, MX = {0.5, 1, 1.5, 2, 4, 9, 14, 22}, RY = {0.011, 0.125, 0.2, 1}, MY = {1, 1.5, 2, 3.5, 4, 8, 15, 30}, LF = {0.05, 0.5, 0.9, 1.0};
  if (th) { RX.push_back(0.7); MX.insert(MX.end(), {0.8, 3, 6, 40}); RY.push_back(0.33); MY.insert(MY.end(), {1.1, 3, 6, 11, 60}); LF.insert(LF.end(), {0.2, 0.7, 0.99}); }
  int K = th ? 400 : 160;
  for (double rx : RX) for (double mx : MX) for (double ry : RY) for (double my : MY) for (double lf : LF) {
    double ly = ry * lf;
    mc::kase([&] {
      enve::shape sh(rx, mx, ry, my, ly), cp, dc(sh); cp.copy(sh);
      enve::shell se(1, rx, mx, ry, my, ly);
      MC_OK(sh.Rx() == rx && sh.Mx() == mx && sh.Ry() == ry && sh.My() == my && sh.Ly() == ly && sh.surfaceMaxRadius() == rx && sh.surfaceWidth() == ly && sh.surfaceMaxWidth() == ly, "getters", "shape getters do not return the given values");
      MC_OK(se.surfaceMaxRadius() == rx && se.surfaceWidth() == ly && se.surfaceMaxWidth() == ly, "shell-getters", "shell getters do not return the shape values");
      MC_OK(sh.isApprox(cp) && sh.isApprox(dc) && cp.Rx() == rx && cp.Mx() == mx && cp.Ry() == ry && cp.My() == my && cp.Ly() == ly, "copy", "copy is not equal");
      for (int i = 0; i < 5; ++i) { double v[5] = {rx, mx, ry, my, ly}; v[i] *= 1.1; MC_OK(!sh.isApprox(enve::shape(v[0], v[1], v[2], v[3], v[4])), "approx", "shapes differing in parameter %d compare equal", i); }
      double prev = rx;
      std::vector<double> Y; for (int k = 0; k <= K; ++k) Y.push_back(k == K ? ly : ly * k / K);
      for (double f : {1.0, 3.0}) for (int k = 3; k <= 15; ++k) { Y.push_back(ly * f * std::pow(10.0, -k)); Y.push_back(ly * (1 - f * std::pow(10.0, -k))); }
      std::sort(Y.begin(), Y.end());
      for (double y : Y) {
        double q = std::abs(y) / ry, p = std::pow(q, my), b = 1 - p, R = rx * std::pow(b, 1 / mx);
        bool edge = b < 1e-9;
        for (int sg = 1; sg >= -1; sg -= 2) {
          double yy = sg * y;
          MC_OK(sh.checkWidthBound(yy) && se.checkWidthBound(yy), "bound-in", "y=%.17g within the half width is refused", yy);
          double r = sh.surfaceRadius(yy);
          MC_OK(edge ? std::abs(r - R) < rx * std::pow(1e-9, 1 / mx) * 2 : std::abs(r - R) < 1e-12 * rx * (1 + 1 / b), "radius", "radius(%.17g) = %.17g, expected %.17g", yy, r, R);
          MC_OK(r == se.surfaceRadius(yy), "shell-radius", "shell and shape radius differ at %.17g", yy);
          MC_OK(r == sh.surfaceRadius(-yy), "even", "radius is not even at %.17g", yy);
          MC_OK(r == cp.surfaceRadius(yy) && r == dc.surfaceRadius(yy), "copy-radius", "the copy has another radius at %.17g", yy);
          MC_OK(r <= prev * (1 + 1e-12), "monotone", "radius grows outwards at %.17g: %.17g after %.17g", yy, r, prev);
          if (sg < 0) prev = r;
          if (edge) continue;
          double D = y == 0 ? 0 : -sg * rx * my / (mx * ry) * std::pow(q, my - 1) * std::pow(b, 1 / mx - 1);
          if (y != 0 && y < 1e-6) continue; // within the library's tolerance of the middle
          double d = sh.surfaceDerivative(yy), an = sh.surfaceAngle(yy);
          MC_OK(std::abs(d - D) < 1e-9 * (1e-3 + std::abs(D)) * (1 + 1e-3 / b), "derivative", "derivative(%.17g) = %.17g, expected %.17g", yy, d, D);
          MC_OK(d == -sh.surfaceDerivative(-yy), "odd", "derivative is not odd at %.17g", yy);
          MC_OK(std::abs(an - std::atan(D)) < 1e-7, "angle", "angle(%.17g) = %.17g, expected %.17g", yy, an, std::atan(D));
          MC_OK(d == se.surfaceDerivative(yy) && an == se.surfaceAngle(yy), "shell-derivative", "shell and shape slope differ at %.17g", yy);
          mc::outcome(mc::mixd(mc::mixd(0, r), d)); mc::nontrivial();
        }
      }
      MC_OK(std::abs(sh.surfaceRadius(0) - rx) <= 1e-15 * rx && sh.surfaceDerivative(0) == 0 && sh.surfaceAngle(0) == 0, "middle", "middle radius %.17g slope %g", (double)sh.surfaceRadius(0), (double)sh.surfaceDerivative(0));
      for (double f : {1 + 1e-12, 1 + 1e-6, 1.01, 2.0, 1e6}) for (int sg = 1; sg >= -1; sg -= 2) {
        double y = sg * ly * f;
        MC_OK(!sh.checkWidthBound(y) && !se.checkWidthBound(y), "bound-out", "y=%.17g beyond the half width %.17g is accepted", y, ly);
        MC_OK(throws([&] { sh.surfaceRadius(y); }) && throws([&] { sh.surfaceDerivative(y); }) && throws([&] { sh.surfaceAngle(y); }) && throws([&] { se.surfaceRadius(y); }) && throws([&] { se.surfaceDerivative(y); }) && throws([&] { se.surfaceAngle(y); }),
              "refuse", "evaluation at y=%.17g beyond the half width %.17g is not refused", y, ly);
      }
      // setters of the parameters act on the profile
      enve::shape m(1, 1, 1, 1, 1); m.Rx() = rx; m.Mx() = mx; m.Ry() = ry; m.My() = my; m.Ly() = ly;
      for (int k = 0; k <= 8; ++k) { double y = ly * k / 8 * 0.999; MC_OK(m.surfaceRadius(y) == sh.surfaceRadius(y) && m.surfaceDerivative(y) == sh.surfaceDerivative(y), "setters", "parameters set later give another profile at %g", y); }
    }, [&] { return mc::fmt("shape Rx=%g Mx=%g Ry=%g My=%g Ly=%g at every position", rx, mx, ry, my, ly); });
  }
  return mc::finish();
}
