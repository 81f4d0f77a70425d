// C11: wheel totals are the stated aggregates of the ribs; all getter forms agree.
#include "scene.hh"

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto G = grounds(th); { auto e = emptyGrounds(); G.insert(G.end(), e.begin(), e.end()); }
  Grid gr = grid(th); gr.z.push_back(-0.12); gr.cam.push_back(55);
  scenes(G, wheels(), gr, [&](Ground const & g, GObj const & go, WheelDef const & wd, Pose const & ps, std::string const & me) {
    auto s = mk(wd);
    bool ret = setup(*s, go, aff(ps), me);
    Snap a = snap(*s, ret);
    std::string w = me + " " + str(ps);
    MC_OK(a.n == wd.n, "rib-count", "%s: %zu ribs", w.c_str(), a.n);
    mc::outcome(hash(a));
    bool any = false; double V = 0, A = 0; size_t cnt = 0;
    for (size_t i = 0; i < a.n; ++i) { V += a.vs[i]; A += a.as[i]; if (a.vs[i] > 0) { any = true; ++cnt; } }
    if (any) mc::nontrivial();
    if (any && cnt < a.n) mc::note("partial contact");
    MC_OK(ret == any, "flag", "%s: returned %d, %zu ribs in contact", w.c_str(), ret, cnt);
    double L = 1 + norm(a.pt);
    MC_OK(std::abs(a.v - V) <= 1e-13 * (1 + V), "total-volume", "%s: total volume %.15g, ribs sum to %.15g", w.c_str(), a.v, V);
    MC_OK(std::abs(a.a - A) <= 1e-13 * (1 + A), "total-area", "%s: total area %.15g, ribs sum to %.15g", w.c_str(), a.a, A);
    if (V == 0 || V > 1.6e-8) {
      P3 p = {0,0,0}, n = {0,0,0}; double f = 0, d = 0;
      for (size_t i = 0; i < a.n; ++i) {
        double k = V > 0 ? a.vs[i] / V : 1.0 / a.n;
        p = p + k * a.pts[i]; n = n + k * a.nrs[i]; f += k * a.fs[i]; if (V > 0) d += k * a.ds[i];
      }
      MC_OK(norm(p - a.pt) < 1e-10 * L, "total-point", "%s: total point %s, mean of ribs %s", w.c_str(), str(a.pt).c_str(), str(p).c_str());
      if (norm(n) > 1e-6) MC_OK(norm(unit(n) - a.nr) < 1e-9, "total-normal", "%s: total normal %s, mean of ribs %s", w.c_str(), str(a.nr).c_str(), str(unit(n)).c_str());
      MC_OK(std::abs(f - a.f) < 1e-10, "total-friction", "%s: total friction %.15g, mean of ribs %.15g", w.c_str(), a.f, f);
      MC_OK(std::abs(d - a.d) < 1e-10 * L, "total-depth", "%s: total depth %.15g, mean of ribs %.15g", w.c_str(), a.d, d);
    }
    // vector forms, starting from vectors of other sizes
    for (size_t pre : {size_t(0), wd.n + 3, wd.n - 1}) {
      std::vector<acme::point> vp(pre, acme::point(9,9,9)); std::vector<acme::vec3> vn(pre, acme::vec3(9,9,9)), ve(pre, acme::vec3(9,9,9));
      std::vector<acme::real> vf(pre, 9), vd(pre, 9), va(pre, 9), vv(pre, 9); std::vector<acme::affine> vA(pre);
      s->contactPoint(vp); s->contactNormal(vn); s->contactFriction(vf); s->contactDepth(vd); s->contactArea(va); s->contactVolume(vv); s->contactPointAffine(vA); s->relativeAngles(ve);
      bool sz = vp.size() == a.n && vn.size() == a.n && vf.size() == a.n && vd.size() == a.n && va.size() == a.n && vv.size() == a.n && vA.size() == a.n && ve.size() == a.n;
      MC_OK(sz, "vector-size", "%s: a vector getter did not return %zu values (given %zu)", w.c_str(), a.n, pre);
      if (!sz) continue;
      for (size_t i = 0; i < a.n; ++i) {
        bool e = beq(p3(vp[i]), a.pts[i]) && beq(p3(vn[i]), a.nrs[i]) && beq(vf[i], a.fs[i]) && beq(vd[i], a.ds[i]) && beq(va[i], a.as[i]) && beq(vv[i], a.vs[i]);
        MC_OK(e, "vector-value", "%s: rib %zu differs between vector and indexed getters", w.c_str(), i);
        MC_OK(beq(m16(vA[i]), a.frames[i]) && beq(p3(ve[i]), a.angs[i]), "vector-frame", "%s: frame or angles of rib %zu differ between vector and indexed getters", w.c_str(), i);
      }
    }
  });
  return mc::finish();
}
