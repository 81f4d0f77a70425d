// Wheels, grounds and snapshots of every contact output, shared by C08-C19.
#ifndef SCENE_HH
#define SCENE_HH
#include "chord.hh"
#include <memory>

struct WheelDef { size_t n; double rx, mx, ry, my, ly; };
inline std::string str(WheelDef const & w) { return mc::fmt("wheel(n=%zu Rx=%g Mx=%g Ry=%g My=%g Ly=%g)", w.n, w.rx, w.mx, w.ry, w.my, w.ly); }
inline std::unique_ptr<enve::shell> mk(WheelDef const & w) { return std::unique_ptr<enve::shell>(new enve::shell(w.n, w.rx, w.mx, w.ry, w.my, w.ly)); }
inline std::vector<WheelDef> wheels()
{
  return {
    {1, 0.3, 2, 0.2, 4, 0.1}, {3, 0.31, 2, 0.15, 2, 0.1}, {4, 0.29, 4, 0.3, 8, 0.14}, {7, 0.33, 1, 0.4, 2, 0.35}, {10, 0.3, 9, 0.125, 6, 0.12}, {2, 1.0, 2, 0.6, 4, 0.5}};
}
struct Ground {
  std::string name; bool flat = false; P3 o = {0,0,0}, n = {0,0,1}; double f = 1; std::vector<TriRef> t;
};
inline TVec tv(std::vector<TriRef> const & ts) { TVec v; for (size_t i = 0; i < ts.size(); ++i) v.push_back(tri((int)i, ts[i].f, ts[i].v[0], ts[i].v[1], ts[i].v[2])); return v; }
// heights of the bumpy ground: irregular but reproducible
inline double bump(int i, int j, double amp) { return amp * (((i * 7 + j * 13 + i * j * 5) % 11) / 11.0 - 0.45); }
inline Ground gridGround(std::string name, double x0, double x1, int nx, double y0, double y1, int ny, std::function<double(double,double,int,int)> z, bool hole = false)
{
  Ground g; g.name = name;
  double fl[] = {1, 0.5, 0.75, 0.25, 2};
  auto P = [&](int i, int j) { double x = x0 + (x1 - x0) * i / nx + 0.0031 * ((i * 3 + j) % 5), y = y0 + (y1 - y0) * j / ny + 0.0023 * ((i + j * 2) % 7); return P3{x, y, z(x, y, i, j)}; };
  for (int i = 0; i < nx; ++i) for (int j = 0; j < ny; ++j) {
    if (hole && (i + 2 * j) % 3 == 0) continue;
    P3 a = P(i, j), b = P(i + 1, j), c = P(i + 1, j + 1), d = P(i, j + 1);
    double f = fl[(i * 2 + j) % 5], h = fl[(i + j * 3) % 5];
    if ((i + j) % 2) { g.t.push_back({{a, b, c}, f}); g.t.push_back({{a, c, d}, h}); } else { g.t.push_back({{a, b, d}, f}); g.t.push_back({{b, c, d}, h}); }
  }
  return g;
}
inline Ground flatGround(double slope, double dir, double f, double h = 0)
{ Ground g; g.name = mc::fmt("flat slope(%g,%g) height %g", slope, dir, h); g.flat = true; double a = slope * DEG, b = dir * DEG; g.n = {std::sin(a) * std::cos(b), std::sin(a) * std::sin(b), std::cos(a)}; g.o = {0, 0, h}; g.f = f; return g; }
inline std::vector<Ground> grounds(bool many = false)
{
  std::vector<Ground> g;
  g.push_back(flatGround(0, 0, 1)); g.push_back(flatGround(12, 33, 0.5)); g.push_back(flatGround(25, 250, 0));
  g.push_back(gridGround("bumpy", -1.013, 1.0071, 9, -1.0171, 1.0029, 10, [](double, double, int i, int j) { return bump(i, j, 0.12); }));
  g.push_back(gridGround("step", -1.013, 1.0071, 6, -1.0171, 1.0029, 5, [](double, double, int i, int) { return i >= 3 ? 0.09 : 0.0; }));
  g.push_back(gridGround("holes", -1.013, 1.0071, 7, -1.0171, 1.0029, 8, [](double, double, int i, int j) { return bump(i, j, 0.05); }, true));
  g.push_back(gridGround("inclined", -1.513, 1.5071, 3, -1.5171, 1.5029, 2, [](double x, double y, int, int) { return 0.2 * x - 0.1 * y; }));
  { Ground s; s.name = "one triangle"; s.t.push_back({{{-0.8, -0.7, 0.0123}, {0.9, -0.65, -0.02}, {0.0317, 0.81, 0.05}}, 0.8}); g.push_back(s); }
  { Ground s; s.name = "three triangles"; s.t.push_back({{{-0.8, -0.7, 0.0123}, {0.9, -0.65, -0.02}, {0.0317, 0.81, 0.05}}, 0.8});
    s.t.push_back({{{0.1, -0.7, 0.05}, {0.9, -0.65, 0.2}, {0.2, 0.81, 0.05}}, 0.3}); s.t.push_back({{{-0.5, -0.7, 0.3}, {-0.4, 0.65, 0.2}, {-0.2, 0.11, -0.05}}, 1.3}); g.push_back(s); }
  if (many) {
    g.push_back(gridGround("fine bumpy", -0.713, 0.7071, 24, -0.7171, 0.7029, 22, [](double, double, int i, int j) { return bump(i, j, 0.06); }));
    g.push_back(gridGround("steep", -1.013, 1.0071, 8, -1.0171, 1.0029, 8, [](double, double, int i, int j) { return bump(i, j, 0.6); }));
    g.push_back(flatGround(70, 120, 1)); g.push_back(flatGround(0, 0, 1, 0.11));
  }
  return g;
}
// ground object (exactly one of the two)
struct GObj { std::unique_ptr<enve::ground::flat> flat; std::unique_ptr<enve::ground::mesh> mesh; };
inline GObj mkGround(Ground const & g)
{ GObj o; if (g.flat) o.flat.reset(new enve::ground::flat(g.f, ap(g.o), av(g.n))); else o.mesh.reset(new enve::ground::mesh(tv(g.t))); return o; }
inline bool setup(enve::shell & s, GObj const & g, acme::affine const & pose, std::string const & m)
{ return g.flat ? s.setup(*g.flat, pose, m) : s.setup(*g.mesh, pose, m); }

struct Snap { // every contact output of a shell
  bool ret = false; size_t n = 0;
  P3 pt, nr; double f, d, a, v; std::array<double,16> frame; P3 ang;
  std::vector<P3> pts, nrs, angs; std::vector<double> fs, ds, as, vs; std::vector<std::array<double,16>> frames;
  std::array<double,16> pose; P3 euler;
};
inline std::array<double,16> m16(acme::affine const & a) { std::array<double,16> r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[4*i+j] = a.matrix()(i,j); return r; }
inline Snap snap(enve::shell const & s, bool ret)
{
  Snap o; o.ret = ret; o.n = s.size();
  acme::point p; acme::vec3 n; acme::real x; acme::affine A;
  s.contactPoint(p); o.pt = p3(p); s.contactNormal(n); o.nr = p3(n);
  s.contactFriction(x); o.f = x; s.contactDepth(x); o.d = x; s.contactArea(x); o.a = x; s.contactVolume(x); o.v = x;
  s.contactPointAffine(A); o.frame = m16(A); s.relativeAngles(n); o.ang = p3(n);
  for (size_t i = 0; i < o.n; ++i) {
    s.contactPoint(i, p); o.pts.push_back(p3(p)); s.contactNormal(i, n); o.nrs.push_back(p3(n));
    s.contactFriction(i, x); o.fs.push_back(x); s.contactDepth(i, x); o.ds.push_back(x); s.contactArea(i, x); o.as.push_back(x); s.contactVolume(i, x); o.vs.push_back(x);
    s.contactPointAffine(i, A); o.frames.push_back(m16(A)); s.relativeAngles(i, n); o.angs.push_back(p3(n));
  }
  o.pose = m16(s.transformation()); s.eulerAngles(n); o.euler = p3(n);
  return o;
}
inline bool beq(double a, double b) { return a == b || (a != a && b != b); }
inline bool beq(P3 const & a, P3 const & b) { return beq(a[0],b[0]) && beq(a[1],b[1]) && beq(a[2],b[2]); }
inline bool beq(std::array<double,16> const & a, std::array<double,16> const & b) { for (int i = 0; i < 16; ++i) if (!beq(a[i],b[i])) return false; return true; }
// name of the first differing output, empty when bit-for-bit equal
inline std::string diff(Snap const & a, Snap const & b)
{
  if (a.ret != b.ret) return "return flag";
  if (a.n != b.n) return "rib count";
  if (!beq(a.pt,b.pt)) return "total point"; if (!beq(a.nr,b.nr)) return "total normal"; if (!beq(a.f,b.f)) return "total friction";
  if (!beq(a.d,b.d)) return "total depth"; if (!beq(a.a,b.a)) return "total area"; if (!beq(a.v,b.v)) return "total volume";
  if (!beq(a.frame,b.frame)) return "total frame"; if (!beq(a.ang,b.ang)) return "total angles";
  for (size_t i = 0; i < a.n; ++i) {
    char const * w = !beq(a.pts[i],b.pts[i]) ? "point" : !beq(a.nrs[i],b.nrs[i]) ? "normal" : !beq(a.fs[i],b.fs[i]) ? "friction" : !beq(a.ds[i],b.ds[i]) ? "depth" :
      !beq(a.as[i],b.as[i]) ? "area" : !beq(a.vs[i],b.vs[i]) ? "volume" : !beq(a.frames[i],b.frames[i]) ? "frame" : !beq(a.angs[i],b.angs[i]) ? "angles" : 0;
    if (w) return mc::fmt("rib %zu %s", i, w);
  }
  if (!beq(a.pose,b.pose)) return "pose"; if (!beq(a.euler,b.euler)) return "euler angles";
  return "";
}
inline uint64_t hash(Snap const & s) { uint64_t h = mc::mix(s.ret, s.n); h = mc::mixd(h, s.v); h = mc::mixd(h, s.a); for (double v : s.vs) h = mc::mixd(h, v); for (int k = 0; k < 3; ++k) h = mc::mixd(h, s.pt[k]); return h; }
// enumerate scenes: one case per ground, wheel, yaw and camber; the body gets every pose and method
struct Grid { std::vector<double> yaw, cam, spin, z, x; };
inline Grid grid(bool th)
{
  Grid g{{3, 100.3, 217}, {0, 8, -21}, {5, 140.7}, {0.05, 0.13, 0.22, 0.28, 0.5}, {0.0137, -0.2091}};
  if (th) { for (double a : {-70.1, 33.3, 300.2}) g.yaw.push_back(a); for (double a : {-3., 35., 60., 178.}) g.cam.push_back(a); for (double a : {77.3, 260.}) g.spin.push_back(a); for (double a : {0.19, 0.25, 0.31, -0.1}) g.z.push_back(a); g.x.push_back(0.7031); }
  return g;
}
template <class F> inline void scenes(std::vector<Ground> const & G, std::vector<WheelDef> const & W, Grid const & gr, F && body)
{
  for (size_t gi = 0; gi < G.size(); ++gi) for (auto const & wd : W) for (double ya : gr.yaw) for (double ca : gr.cam)
    mc::kase([&] {
      GObj go = mkGround(G[gi]);
      for (double z : gr.z) for (double x : gr.x) for (double sp : gr.spin) for (int me = 0; me < 2; ++me) {
        Pose ps = {x, 0.5 * x + 0.0043, z * (wd.rx / 0.3), ya * DEG, ca * DEG, sp * DEG};
        body(G[gi], go, wd, ps, std::string(METHODS[me]));
        mc::transition();
      }
    }, [&] { return mc::fmt("%s, %s, yaw %g, camber %g, all heights, offsets, spins and methods", G[gi].name.c_str(), str(wd).c_str(), ya, ca); });
}
// grounds giving no contact or special contact
inline std::vector<Ground> emptyGrounds()
{
  std::vector<Ground> g;
  { Ground s; s.name = "empty mesh"; g.push_back(s); }
  g.push_back(gridGround("far mesh", 50, 52, 3, 50, 52, 3, [](double, double, int, int) { return 0.0; }));
  g.push_back(gridGround("deep mesh", -1.013, 1.0071, 4, -1.0171, 1.0029, 4, [](double, double, int, int) { return -30.0; }));
  g.push_back(gridGround("high mesh", -1.013, 1.0071, 4, -1.0171, 1.0029, 4, [](double, double, int, int) { return 30.0; }));
  { Ground s = gridGround("sparse far ring", -4, 4, 2, -4, 4, 2, [](double, double, int i, int j) { return -6.0 + 0.1 * i + 0.2 * j; }); g.push_back(s); }
  g.push_back(flatGround(0, 0, 1, -40)); g.push_back(flatGround(0, 0, 0.5, -9));
  return g;
}
inline double R3(std::array<double,16> const & m, int r, int c) { return m[4 * r + c]; }
// Rz(a) Rx(b) Ry(c) from the ZXY angles
inline M3 zxy(P3 const & e) { Pose p = {0, 0, 0, e[0], e[1], e[2]}; return rot(p); }
#endif
