// C12: contact results depend only on the current setup, not on history.
// Every operation sequence up to a depth runs on one real shell; after each
// operation its outputs are compared with those of brand-new shells.
#include "scene.hh"

static WheelDef WD = {3, 0.31, 2, 0.15, 2, 0.1};
struct World {
  std::vector<Ground> g; std::vector<GObj> go; std::vector<acme::affine> pose; std::vector<size_t> sizes = {1, 5};
  int turned; std::map<std::string, Snap> ref; // fresh-shell results
};
static World & w()
{
  static World x;
  if (x.g.empty()) {
    bool th = mc::thorough();
    x.g.push_back(flatGround(12, 33, 0.5)); 
    x.g.push_back(gridGround("bumpy", -1.013, 1.0071, 9, -1.0171, 1.0029, 10, [](double, double, int i, int j) { return bump(i, j, 0.12); }));
    { Ground s; s.name = "two triangles"; s.t.push_back({{{-0.8, -0.7, 0.0123}, {0.9, -0.65, -0.02}, {0.0317, 0.81, 0.05}}, 0.8}); s.t.push_back({{{0.1, -0.7, 0.05}, {0.9, -0.65, 0.2}, {0.2, 0.81, 0.05}}, 0.3}); x.g.push_back(s); }
    if (th) { Ground s; s.name = "empty"; x.g.push_back(s); }
    { // two wide triangles, first and last, and small ones in between which come and go
      Ground s; s.name = "wide ends"; Ground b = gridGround("b", -0.513, 0.5071, 8, -0.5171, 0.5029, 8, [](double, double, int i, int j) { return bump(i, j, 0.14); });
      s.t.push_back({{{-3, -3, 0.0123}, {3, -3, -0.02}, {0.0317, 4, 0.03}}, 0.8}); for (auto const & q : b.t) s.t.push_back(q);
      s.t.push_back({{{-3, 3, 0.0223}, {0.1, -4, -0.01}, {3, 3, 0.04}}, 0.6}); x.g.push_back(s); }
    for (auto const & g : x.g) x.go.push_back(mkGround(g));
    std::vector<Pose> ps = {{0.01, 0.004, 0.22, 0.3, 0.1, 0.7}, {3, 4, 0.27, -2.1, -0.2, 5}}; // the second one is off the meshes
    if (th) ps.push_back({-0.2, 0.1, 0.15, 1.3, -0.4, 2.7});
    for (auto const & p : ps) x.pose.push_back(aff(p));
    x.turned = (int)x.pose.size(); x.pose.push_back(aff({0.01, 0.004, 0.22, 1.7, -0.05, 4})); // same place, other direction: the same triangles are near, other ribs touch them
  }
  return x;
}
static std::string setupKey(size_t n, int g, int p, int m) { return mc::fmt("%zu/%d/%d/%d", n, g, p, m); }
static Snap const & fresh(size_t n, int g, int p, int m)
{
  std::string k = setupKey(n, g, p, m);
  auto it = w().ref.find(k);
  if (it == w().ref.end()) { WheelDef d = WD; d.n = n; auto s = mk(d); bool r = setup(*s, w().go[g], w().pose[p], METHODS[m]); it = w().ref.emplace(k, snap(*s, r)).first; }
  return it->second;
}
struct Op { int kind; int a, b, c; }; // 0 setup, 1 bad method, 2 resize, 3 resize(0), 4 move, 5 queries
static std::vector<Op> ops()
{
  std::vector<Op> o;
  for (int g = 0; g < (int)w().g.size(); ++g) for (int p = 0; p < (int)w().pose.size(); ++p) for (int m = 0; m < 2; ++m) if (p != w().turned || g == 1 || g + 1 == (int)w().g.size()) o.push_back({0, g, p, m});
  for (int g = 0; g < 2; ++g) o.push_back({1, g, 0, 0});
  o.push_back({2, 1, 0, 0}); o.push_back({2, 5, 0, 0}); o.push_back({3, 0, 0, 0});
  for (int k = 0; k < 3; ++k) o.push_back({4, k, 0, 0});
  o.push_back({5, 0, 0, 0});
  return o;
}
static std::string str(Op const & o)
{
  switch (o.kind) {
    case 0: return mc::fmt("setup(%s, pose %d, %s)", w().g[o.a].name.c_str(), o.b, METHODS[o.c]);
    case 1: return mc::fmt("setup(%s, pose 0, wrong method)", w().g[o.a].name.c_str());
    case 2: return mc::fmt("resize(%d)", o.a); case 3: return "resize(0)";
    case 4: return o.a == 0 ? "translate" : o.a == 1 ? "rotate" : "transform"; default: return "queries";
  }
}
static bool sameRibs(Snap const & a, Snap const & b, std::string & what)
{
  if (a.n != b.n) { what = "rib count"; return false; }
  for (size_t i = 0; i < a.n; ++i)
    if (!beq(a.pts[i], b.pts[i]) || !beq(a.nrs[i], b.nrs[i]) || !beq(a.fs[i], b.fs[i]) || !beq(a.ds[i], b.ds[i]) || !beq(a.as[i], b.as[i]) || !beq(a.vs[i], b.vs[i]))
    { what = mc::fmt("rib %zu", i); return false; }
  return true;
}
static void vquery(enve::shell & s, Snap const & a, std::string const & t)
{
  std::vector<acme::point> vp; std::vector<acme::vec3> vn; std::vector<acme::real> v; std::vector<acme::affine> vA;
  bool ok = true;
  auto pts = [&](std::vector<P3> const & r) { ok = ok && vp.size() == r.size(); for (size_t i = 0; ok && i < r.size(); ++i) ok = beq(p3(vp[i]), r[i]); };
  auto vec = [&](std::vector<P3> const & r) { ok = ok && vn.size() == r.size(); for (size_t i = 0; ok && i < r.size(); ++i) ok = beq(p3(vn[i]), r[i]); };
  auto val = [&](std::vector<double> const & r) { ok = ok && v.size() == r.size(); for (size_t i = 0; ok && i < r.size(); ++i) ok = beq(v[i], r[i]); };
  s.contactPoint(vp); pts(a.pts); s.contactNormal(vn); vec(a.nrs); s.contactVolume(v); val(a.vs); s.contactDepth(v); val(a.ds); s.contactFriction(v); val(a.fs); s.contactArea(v); val(a.as);
  s.contactPointAffine(vA); ok = ok && vA.size() == a.n; for (size_t i = 0; ok && i < a.n; ++i) ok = beq(m16(vA[i]), a.frames[i]);
  s.relativeAngles(vn); vec(a.angs);
  MC_OK(ok, "lists", "after %s: the lists of rib outputs differ from the single outputs", t.c_str());
  std::ostringstream os; s.print(os);
  s.bbox(); s.surfaceRadius(0.05); s.translation(); s.rotation();
  for (size_t i = 0; i < s.size(); ++i) { s.ribCenter(i); s.ribRadius(i); s.ribWidth(i); s.ribAngle(i); }
  Snap b = snap(s, a.ret);
  std::string d = diff(a, b);
  MC_OK(d.empty(), "query-changes", "after %s: queries changed %s", t.c_str(), d.c_str());
}
static void run(std::vector<Op> const & seq)
{
  auto s = mk(WD);
  size_t n = WD.n; Snap last; bool have = false; std::string t;
  acme::affine pose; pose.matrix() = acme::mat4::Identity();
  uint64_t st = 0;
  for (auto const & o : seq) {
    t += str(o) + "; ";
    mc::transition();
    if (o.kind == 0) {
      bool r = setup(*s, w().go[o.a], w().pose[o.b], METHODS[o.c]);
      Snap a = snap(*s, r); Snap const & f = fresh(n, o.a, o.b, o.c);
      std::string d = diff(a, f);
      MC_OK(d.empty(), "history", "after %s: %s differs from a new shell", t.c_str(), d.c_str());
      if (r) mc::nontrivial();
      last = a; have = true; pose = w().pose[o.b]; st = hash(a);
    } else if (o.kind == 1) {
      bool thrown = false, r = false;
      try { r = setup(*s, w().go[o.a], w().pose[0], "nonsense"); } catch (std::exception const &) { thrown = true; }
      MC_OK(thrown, "bad-method", "after %s: an unknown method was accepted (returned %d)", t.c_str(), r);
      have = false; pose = w().pose[0];
      MC_OK(s->size() == n, "bad-method-size", "after %s: %zu ribs, expected %zu", t.c_str(), s->size(), n);
    } else if (o.kind == 2) {
      s->resize(o.a); n = o.a; have = false;
      MC_OK(s->size() == n, "resize", "after %s: %zu ribs", t.c_str(), s->size());
      snap(*s, false); // reads every output
    } else if (o.kind == 3) {
      bool thrown = false;
      try { s->resize(0); } catch (std::exception const &) { thrown = true; }
      MC_OK(thrown && s->size() == n, "resize-zero", "after %s: thrown %d, %zu ribs expected %zu", t.c_str(), thrown, s->size(), n);
    } else if (o.kind == 4) {
      acme::affine m; m.matrix() = acme::mat4::Identity();
      if (o.a == 0) { s->translate(acme::vec3(0.5, -0.25, 0.125)); m.translate(acme::vec3(0.5, -0.25, 0.125)); pose = pose * m; }
      else if (o.a == 1) { s->rotate(0.4, acme::vec3(0, 0, 1)); m.rotate(acme::angleaxis(0.4, acme::vec3(0, 0, 1))); pose = pose * m; }
      else { s->transform(w().pose[1]); pose = w().pose[1]; }
    } else vquery(*s, snap(*s, have && last.ret), t);
    MC_OK((s->transformation().matrix() - pose.matrix()).norm() < 1e-12, "pose", "after %s: the pose is not the expected one", t.c_str());
    if (have && o.kind != 0) {
      std::string what; Snap a = snap(*s, last.ret);
      MC_OK(sameRibs(a, last, what), "stale", "after %s: the output of %s is not that of the latest setup", t.c_str(), what.c_str());
    }
    uint64_t h = mc::mix(st, n); h = mc::mix(h, have); for (int i = 0; i < 3; ++i) h = mc::mixd(h, pose.translation()[i]); h = mc::mixd(h, pose.matrix()(0,0));
    mc::state(h); mc::outcome(h);
  }
  mc::trace();
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  auto O = ops();
  int depth = 4;
  // sequences end with a setup (or the queries): shorter prefixes are checked within longer ones
  std::vector<Op> seq(depth);
  for (size_t a = 0; a < O.size(); ++a) for (size_t b = 0; b < O.size(); ++b) for (size_t c = 0; c < O.size(); ++c)
    mc::kase([&] { for (size_t d = 0; d < O.size(); ++d) run({O[a], O[b], O[c], O[d]}); },
             [&] { return mc::fmt("%s; %s; %s; then every operation", str(O[a]).c_str(), str(O[b]).c_str(), str(O[c]).c_str()); });
  // drives: long runs of setups, each a small step from the previous one
  static char const * WAY[8] = {"down", "up", "along x", "along y", "yawing", "cambering", "spinning", "all at once"};
  for (int g = 0; g < (int)w().g.size(); ++g) for (int way = 0; way < 8; ++way) for (int mag : {-9, -7, -5, -4, -3, -2, -1, 0}) for (int half = 0; half < 2; ++half)
    mc::kase([&] {
      double z = std::pow(10.0, mag) * (half ? 0.33 : 1); int steps = mag == -4 || mag == -3 ? 300 : mc::thorough() ? 120 : 24;
      for (int m = 0; m < 3; ++m) for (double h0 : {0.22, 0.335, 0.36}) {
        auto s = mk(WD); Pose p = {0.01, 0.004, h0, 0.3, 0.1, 0.7};
        for (int k = 0; k < steps; ++k) {
          acme::affine A = aff(p); int me = m == 2 ? k % 2 : m;
          bool r = setup(*s, w().go[g], A, METHODS[me]);
          if (steps > 120 && k % 4 != 3) { mc::transition(); } else {
          Snap a = snap(*s, r);
          auto f = mk(WD); bool r2 = setup(*f, w().go[g], A, METHODS[me]); std::string d = diff(a, snap(*f, r2));
          MC_OK(d.empty(), "history", "step %d of a drive %s by %g from height %g on %s, method %d: %s differs from a new shell", k, WAY[way], z, h0, w().g[g].name.c_str(), m, d.c_str());
          if (r) mc::nontrivial(); mc::transition(); mc::state(hash(a)); }
          if (way == 0 || way == 7) p.z -= 0.3 * z; if (way == 1) p.z += 0.3 * z; if (way == 2 || way == 7) p.x += z; if (way == 3) p.y += z; if (way == 4 || way == 7) p.yaw += z; if (way == 5) p.camber += z; if (way == 6 || way == 7) p.spin += z;
        }
        mc::trace();
      }
    }, [&] { return mc::fmt("%s: drive %s in steps of 1e%d%s", w().g[g].name.c_str(), WAY[way], mag, half ? "/3" : ""); });
  // per-rib consistency for many rib counts: access beyond 200 ribs, one rib
  for (size_t n : {size_t(1), size_t(2), size_t(50), size_t(199), size_t(200), size_t(201), size_t(333)})
    mc::kase([&] {
      WheelDef d = WD; d.n = n; auto s = mk(d);
      for (int g = 0; g < (int)w().g.size(); ++g) for (int p = 0; p < (int)w().pose.size(); ++p) for (int m = 0; m < 2; ++m) {
        bool r = setup(*s, w().go[g], w().pose[p], METHODS[m]); Snap a = snap(*s, r); vquery(*s, a, "many ribs");
        auto s2 = mk(WD); s2->resize(n); bool r2 = setup(*s2, w().go[g], w().pose[p], METHODS[m]);
        std::string df = diff(a, snap(*s2, r2)); if (r) mc::nontrivial(); mc::transition(); mc::state(hash(a));
        MC_OK(df.empty(), "history", "%zu ribs: %s differs between history and new shell", n, df.c_str());
      } mc::trace();
    }, [&] { return mc::fmt("%zu ribs, all setups in sequence", n); });
  return mc::finish();
}
