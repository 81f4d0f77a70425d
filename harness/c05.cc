// C05: ground triangles and flat grounds are well formed or refused.
#include "common.hh"

static void checkTri(enve::triangleground const & t, int id, double f, P3 const v[3], char const * how)
{
  double scale = 0; for (int k = 0; k < 3; ++k) for (int j = 0; j < 3; ++j) scale = std::max(scale, std::abs(v[k][j]));
  P3 e1 = v[1] - v[0], e2 = v[2] - v[1], e3 = v[0] - v[2];
  P3 n = p3(t.normal());
  MC_OK(near(norm(n), 1.0, 1e-9), "normal-unit", "%s: normal %s is not unit", how, str(n).c_str());
  for (P3 const & e : {e1, e2, e3})
    MC_OK(std::abs(dot(n, e)) <= 1e-9 * (norm(e) + 1e-3 * scale), "normal-perp", "%s: normal %s is not perpendicular to side %s", how, str(n).c_str(), str(e).c_str());
  MC_OK(n[2] >= 0, "normal-up", "%s: normal %s points downwards", how, str(n).c_str());
  for (int k = 0; k < 3; ++k) {
    MC_OK(p3(t.vertex(k)) == v[k], "vertex", "%s: vertex(%d) is %s", how, k, str(p3(t.vertex(k))).c_str());
    MC_OK(p3(t[k]) == v[k], "vertex", "%s: [%d] is %s", how, k, str(p3(t[k])).c_str());
  }
  MC_OK(t.id() == id, "id", "%s: id is %d", how, (int)t.id());
  MC_OK(t.friction() == f, "friction", "%s: friction is %g", how, (double)t.friction());
  MC_OK(t.bbox().id() == id, "bbox-id", "%s: bounding box carries id %d", how, (int)t.bbox().id());
  for (int j = 0; j < 3; ++j) {
    double lo = std::min(v[0][j], std::min(v[1][j], v[2][j])), hi = std::max(v[0][j], std::max(v[1][j], v[2][j]));
    MC_OK(t.bbox().min()[j] == lo && t.bbox().max()[j] == hi, "bbox", "%s: bounding box axis %d is [%g,%g], hull is [%g,%g]", how, j,
          (double)t.bbox().min()[j], (double)t.bbox().max()[j], lo, hi);
  }
}
template <class F> static bool refused(F f) { try { f(); } catch (std::exception const &) { return true; } return false; }

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  // --- ground triangles: every vertex triple of a lattice, every shift and scale
  std::vector<double> lat = th ? std::vector<double>{-2, 0, 0.5, 3} : std::vector<double>{-2, 0, 3};
  std::vector<P3> pts;
  for (double x : lat) for (double y : lat) for (double z : lat) pts.push_back({x, y, z});
  std::vector<std::pair<double,P3>> sc = {{1, {0,0,0}}, {1e-3, {0,0,0}}, {1, {1000.25, -512.5, 20}}, {1e3, {0,0,0}}};
  std::vector<double> shear(sc.size(), 0); // almost vertical triangles: the vertical ones, slightly sheared
  for (double d : th ? std::vector<double>{1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12} : std::vector<double>{1e-4, 1e-7, 1e-10}) { sc.push_back({1, {0,0,0}}); shear.push_back(d); }
  std::vector<std::pair<int,double>> attr = {{0, 1.0}, {7, 0.0}, {-3, 0.25}, {2147483647, 3.5}};
  for (size_t si = 0; si < sc.size(); ++si)
    for (size_t a = 0; a < pts.size(); ++a) for (size_t b = 0; b < pts.size(); ++b) {
      mc::kase([&] {
        for (size_t c = 0; c < pts.size(); ++c) {
          P3 d = cross(pts[b] - pts[a], pts[c] - pts[a]);
          if (norm(d) == 0 || (shear[si] && d[2] != 0)) continue;
          P3 v[3] = {sc[si].first * pts[a] + sc[si].second, sc[si].first * pts[b] + sc[si].second, sc[si].first * pts[c] + sc[si].second};
          for (P3 & w : v) { w[0] += shear[si] * w[2]; w[1] -= 0.5 * shear[si] * w[2]; }
          auto const & at = attr[(a * 7 + b * 3 + c) % attr.size()];
          acme::point pv[3] = {ap(v[0]), ap(v[1]), ap(v[2])};
          enve::triangleground t1(at.first, at.second, v[0][0], v[0][1], v[0][2], v[1][0], v[1][1], v[1][2], v[2][0], v[2][1], v[2][2]);
          enve::triangleground t2(at.first, at.second, pv[0], pv[1], pv[2]);
          enve::triangleground t3(at.first, at.second, pv);
          checkTri(t1, at.first, at.second, v, "coordinates");
          checkTri(t2, at.first, at.second, v, "points");
          checkTri(t3, at.first, at.second, v, "array");
          enve::triangleground cp, cq(99, 9.0, ap({1,1,1}), ap({2,1,5}), ap({1,7,1}));
          cp.copy(t1); cq.copy(t2);
          checkTri(cp, at.first, at.second, v, "copy into empty");
          checkTri(cq, at.first, at.second, v, "copy over another");
          checkTri(t1, at.first, at.second, v, "source of a copy");
          MC_OK(cp.isApprox(t1) && t1.isApprox(cp), "approx", "a copy is not approximately equal to its source");
          mc::nontrivial();
          mc::outcome(mc::mixd(mc::mixd(1, t1.normal().z()), t1.normal().x()));
        }
      }, [&] { return mc::fmt("triangles %s %s * scaled %g shifted %s sheared %g", str(pts[a]).c_str(), str(pts[b]).c_str(), sc[si].first, str(sc[si].second).c_str(), shear[si]); });
    }
  // --- refused / accepted frictions
  std::vector<double> fr = {-1, -1e-3, -1e-300, -std::numeric_limits<double>::infinity(), std::nan(""), -0.0, 0, 1e-300, 0.5, 1, 100};
  std::vector<double> nz = {-2, -1, -1e-6, -0.0, 0, 1e-6, 0.5, 1, 3};
  if (th) for (int k = 1; k < 20; ++k) { nz.push_back(0.1 * k); nz.push_back(-0.1 * k); }
  for (double f : fr)
    mc::kase([&] {
      bool bad = !(f >= 0);
      acme::point pv[3] = {ap({0,0,0}), ap({1,0,0}), ap({0,1,0})};
      bool r1 = refused([&] { enve::triangleground t(1, f, 0, 0, 0, 1, 0, 0, 0, 1, 0); });
      bool r2 = refused([&] { enve::triangleground t(1, f, pv[0], pv[1], pv[2]); });
      bool r3 = refused([&] { enve::triangleground t(1, f, pv); });
      MC_OK(r1 == bad, "tri-friction", "coordinates constructor %s friction %g", r1 ? "refused" : "accepted", f);
      MC_OK(r2 == bad, "tri-friction", "points constructor %s friction %g", r2 ? "refused" : "accepted", f);
      MC_OK(r3 == bad, "tri-friction", "array constructor %s friction %g", r3 ? "refused" : "accepted", f);
      mc::nontrivial();
    }, [&] { return mc::fmt("triangle friction %g", f); });
  // --- flat grounds
  std::vector<double> nx = th ? std::vector<double>{-3, -1, -0.25, 0, 1e-3, 0.5, 2} : std::vector<double>{-1, 0, 0.5, 2};
  std::vector<P3> org = {{0,0,0}, {1,-2,3}, {-1e3, 1e3, 0.5}, {0,0,-7}};
  std::vector<double> scale = {1, 1e-4, 1e-2, 7, 1e4};
  for (double f : fr) for (double z : nz) for (double s : scale)
    mc::kase([&] {
      for (double x : nx) for (double y : nx) for (P3 const & o : org) {
        P3 n = {s * x, s * y, s * z};
        bool bad = !(f >= 0) || !(n[2] > 0);
        for (int how = 0; how < 3; ++how) {
          std::unique_ptr<enve::ground::flat> g;
          bool r = refused([&] {
            if (how == 0) g.reset(new enve::ground::flat(f, o[0], o[1], o[2], n[0], n[1], n[2]));
            else if (how == 1) g.reset(new enve::ground::flat(f, ap(o), av(n)));
            else g.reset(new enve::ground::flat(f, acme::plane(ap(o), av(n))));
          });
          MC_OK(r == bad, r ? "flat-refused" : "flat-accepted", "constructor %d %s normal %s friction %g", how, r ? "refused" : "accepted", str(n).c_str(), f);
          if (!g || bad) continue;
          mc::nontrivial();
          auto chk = [&](enve::ground::flat const & h, char const * w) {
            P3 u = unit(n);
            MC_OK(near(p3(h.normal()), u, 1e-12), "flat-normal", "%s: normal %s, expected %s", w, str(p3(h.normal())).c_str(), str(u).c_str());
            MC_OK(h.normal().z() > 0, "flat-normal", "%s: normal points downwards", w);
            MC_OK(p3(h.origin()) == o, "flat-origin", "%s: origin %s", w, str(p3(h.origin())).c_str());
            MC_OK(h.friction() == f, "flat-friction", "%s: friction %g", w, (double)h.friction());
            MC_OK(near(p3(h.layingPlane().normal()), u, 1e-12) && p3(h.layingPlane().origin()) == o, "flat-plane", "%s: laying plane differs", w);
            mc::outcome(mc::mixd(mc::mixd(2, u[2]), u[0]));
          };
          chk(*g, "flat");
          enve::ground::flat c1, c2(0.125, 5, 5, 5, 0, 1, 1);
          c1.copy(*g); c2.copy(*g);
          chk(c1, "copy into empty"); chk(c2, "copy over another"); chk(*g, "source of a copy");
          MC_OK(c1.isApprox(*g) && g->isApprox(c2), "flat-approx", "a copy is not approximately equal to its source");
        }
      }
    }, [&] { return mc::fmt("flat grounds with friction %g, normal z %g scaled %g", f, z, s); });
  return mc::finish();
}
