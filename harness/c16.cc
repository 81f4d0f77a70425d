// C16: contact frames are right-handed, consistent with normal, point and axle; relative angles describe the wheel in them.
#include "scene.hh"

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  auto G = grounds(th); { auto e = emptyGrounds(); G.push_back(e[0]); G.push_back(e[1]); G.push_back(e[5]); }
  Grid gr = grid(th); gr.yaw.push_back(-60.7); gr.cam.push_back(40); gr.cam.push_back(171);
  scenes(G, wheels(), gr, [&](Ground const & g, GObj const & go, WheelDef const & wd, Pose const & ps, std::string const & me) {
    auto s = mk(wd);
    bool ret = setup(*s, go, aff(ps), me);
    Snap a = snap(*s, ret);
    if (ret) mc::nontrivial();
    mc::outcome(hash(a));
    M3 W = rot(ps);
    for (int i = -1; i < (int)a.n; ++i) {
      auto const & f = i < 0 ? a.frame : a.frames[i]; P3 nr = i < 0 ? a.nr : a.nrs[i], pt = i < 0 ? a.pt : a.pts[i], an = i < 0 ? a.ang : a.angs[i];
      std::string w = me + " " + str(ps) + (i < 0 ? std::string(" whole wheel") : mc::fmt(" rib %d", i));
      MC_OK(std::abs(norm(nr) - 1) < 1e-9, "unit-normal", "%s: normal %s is not a unit vector", w.c_str(), str(nr).c_str());
      P3 x = {R3(f,0,0), R3(f,1,0), R3(f,2,0)}, y = {R3(f,0,1), R3(f,1,1), R3(f,2,1)}, z = {R3(f,0,2), R3(f,1,2), R3(f,2,2)}, o = {R3(f,0,3), R3(f,1,3), R3(f,2,3)};
      MC_OK(beq(z, nr) || norm(z - nr) < 1e-12, "frame-z", "%s: z axis %s, normal %s", w.c_str(), str(z).c_str(), str(nr).c_str());
      MC_OK(norm(o - pt) <= 1e-12 * (1 + norm(pt)), "frame-origin", "%s: origin %s, point %s", w.c_str(), str(o).c_str(), str(pt).c_str());
      MC_OK(R3(f,3,0) == 0 && R3(f,3,1) == 0 && R3(f,3,2) == 0 && R3(f,3,3) == 1, "frame-row", "%s: last row of the frame is not 0 0 0 1", w.c_str());
      double al = norm(cross(W[1], nr)); // axle along the normal leaves the frame undefined
      if (al < 1e-4) { mc::note("undecided"); continue; }
      double tol = 1e-9 / al;
      MC_OK(std::abs(norm(x) - 1) < tol && std::abs(norm(y) - 1) < tol && std::abs(dot(x, y)) < tol && std::abs(dot(y, z)) < tol && std::abs(dot(x, z)) < tol,
            "frame-orthonormal", "%s: axes %s %s %s", w.c_str(), str(x).c_str(), str(y).c_str(), str(z).c_str());
      MC_OK(norm(cross(x, y) - z) < tol * 10, "frame-handed", "%s: x cross y = %s, z = %s", w.c_str(), str(cross(x, y)).c_str(), str(z).c_str());
      MC_OK(std::abs(dot(x, W[1])) < tol, "frame-x", "%s: x axis %s is not perpendicular to the axle %s", w.c_str(), str(x).c_str(), str(W[1]).c_str());
      MC_OK(dot(x, cross(W[1], nr)) > 0, "frame-x-direction", "%s: x axis %s points backwards", w.c_str(), str(x).c_str());
      P3 e = an; if (i >= 0) e[1] += s->ribAngle(i);
      M3 Q = zxy(e); // orientation of the wheel in the frame
      for (int c = 0; c < 3; ++c) { P3 v = {dot(x, W[c]), dot(y, W[c]), dot(z, W[c])};
        MC_OK(norm(v - Q[c]) < 1e-8 / al, "relative-angles", "%s: angles %s do not describe the wheel orientation (column %d %s, expected %s)", w.c_str(), str(an).c_str(), c, str(Q[c]).c_str(), str(v).c_str()); }
    }
    { std::vector<acme::affine> vA; std::vector<acme::vec3> ve, vn; std::vector<acme::point> vp;
      s->contactPointAffine(vA); s->relativeAngles(ve); s->contactNormal(vn); s->contactPoint(vp);
      MC_OK(vA.size() == a.n && ve.size() == a.n && vn.size() == a.n && vp.size() == a.n, "list-size", "%s %s: lists of %zu frames, %zu angles, %zu normals, %zu points for %zu ribs", me.c_str(), str(ps).c_str(), vA.size(), ve.size(), vn.size(), vp.size(), a.n);
      for (size_t i = 0; i < a.n; ++i) MC_OK(beq(m16(vA[i]), a.frames[i]) && beq(p3(ve[i]), a.angs[i]) && beq(p3(vn[i]), a.nrs[i]) && beq(p3(vp[i]), a.pts[i]), "list",
        "%s %s: the list form for rib %zu differs from the single one (angles %s, single %s)", me.c_str(), str(ps).c_str(), i, str(p3(ve[i])).c_str(), str(a.angs[i]).c_str()); }
    P3 e = a.euler; M3 Q = zxy(e);
    for (int c = 0; c < 3; ++c) MC_OK(norm(Q[c] - W[c]) < 1e-9, "euler", "%s: Euler angles %s do not describe the pose", str(ps).c_str(), str(e).c_str());
  });
  return mc::finish();
}
