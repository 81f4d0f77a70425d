// C35: every object releases what it takes. After any history of operations,
// refused ones included, and the end of its objects, no memory or file is held;
// an operation repeated in the same state holds no more the tenth time than the
// second; what was handed out lives as long as its holder and no longer.
#include "scene.hh"
#include "acmeres.hh"
#include "enve_sfun_interface.h"
#include <dirent.h>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
typedef long long Bytes;
static Bytes bytes() { return (Bytes)__sanitizer_get_current_allocated_bytes(); }
static int files() { int n = 0; DIR * d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) ++n; closedir(d); return n; }
struct Level { Bytes b; int f; };
static Level level() { int f = files(); return {bytes(), f}; }
template <class F> static void quiet(F f) { try { f(); } catch (std::exception const &) {} }
// f leaves nothing behind (its first run may fill tables of the C library)
template <class F> static void balanced(char const * kind, F f, std::string const & w)
{
  quiet(f); Level a = level(); quiet(f); Level b = level();
  MC_OK(b.b == a.b, kind, "%s: %lld bytes are still held after the objects are gone", w.c_str(), b.b - a.b);
  MC_OK(b.f == a.f, "files", "%s: %d files are still open after the objects are gone", w.c_str(), b.f - a.f);
}
// repeating f in one state settles
template <class F> static void settles(char const * kind, F f, std::string const & w)
{
  for (int i = 0; i < 2; ++i) quiet(f);
  Level a = level(); for (int i = 0; i < 8; ++i) quiet(f); Level b = level();
  MC_OK(b.b <= a.b, kind, "%s: 8 repetitions of the last operation hold %lld bytes more", w.c_str(), b.b - a.b);
  MC_OK(b.f <= a.f, "files", "%s: 8 repetitions of the last operation hold %d files more", w.c_str(), b.f - a.f);
}
template <class F> static void sequences(int n, int A, F f)
{
  std::vector<int> s(n, 0);
  for (;;) { f(s); int k = n - 1; while (k >= 0 && ++s[k] == A) s[k--] = 0; if (k < 0) break; }
}
static void wr(char const * name, std::string const & text) { std::ofstream f(name); f << text; }
static acme::affine I() { acme::affine A; A.matrix() = acme::mat4::Identity(); return A; }
static std::shared_ptr<acme::aabb const> bx(double a, double b, double c, double d, double e, double f) { return std::make_shared<acme::aabb const>(a, b, c, d, e, f); }
static TVec someTris(int n) { TVec t; for (int i = 0; i < n; ++i) t.push_back(tri(40 - i, 0.5, P3{(double)i, 0, 0}, P3{i + 1.0, 0.2 * i, 0.1}, P3{(double)i, 1, 0.3})); return t; }

// ---------------------------------------------------------------- meshes
struct Meshes { std::unique_ptr<enve::ground::mesh> m[2]; TVec held; Meshes() { for (auto & x : m) x.reset(new enve::ground::mesh()); } };
static char const * MO[] = {"load(r)", "load(o)", "load(r, moved)", "load(bad index)", "load(negative friction)", "load(no triangles)", "load(missing)", "load(wrong extension)", "load(bad obj)", "load(garbage)", "clear", "copy(other)", "copy(itself)", "new(vector)", "new(file)", "new(bad file)", "buildAABBtree", "query", "hold query", "print", "load(other)"};
static int const NMO = sizeof MO / sizeof *MO;
static void meshOp(Meshes & s, int o)
{
  auto & m = *s.m[0];
  switch (o) {
    case 0: m.load("r.rdf", I()); break; case 1: m.load("o.obj", 0.75, I()); break; case 2: m.load("r.rdf", aff(Pose{1, 2, 3, 0.4, 0, 0})); break;
    case 3: m.load("badindex.rdf", I()); break; case 4: m.load("badfriction.rdf", I()); break; case 5: m.load("empty.rdf", I()); break; case 6: m.load("nofile.rdf", I()); break; case 7: m.load("r.txt", I()); break; case 8: m.load("bad.obj", 0.5, I()); break; case 9: m.load("garbage.rdf", I()); break;
    case 10: m.clear(); break; case 11: m.copy(*s.m[1]); break; case 12: m.copy(m); break;
    case 13: s.m[0].reset(new enve::ground::mesh(someTris(7))); break; case 14: s.m[0].reset(new enve::ground::mesh("r.rdf", I())); break; case 15: s.m[0].reset(new enve::ground::mesh("badindex.rdf", I())); break;
    case 16: m.buildAABBtree(); break; case 17: { TVec t; m.intersection(bx(-9, -9, -9, 9, 9, 9), t); break; } case 18: m.intersection(bx(-9, -9, -9, 9, 9, 9), s.held); break;
    case 19: m.print("out.txt"); break; default: s.m[1]->load("o.obj", 0.25, I());
  }
}
static void meshHistory(std::vector<int> const & seq, bool settle)
{
  std::string w; for (int o : seq) w += std::string(w.empty() ? "" : "; ") + MO[o];
  balanced("mesh", [&] { Meshes s; for (int o : seq) quiet([&] { meshOp(s, o); }); }, w);
  if (settle && !seq.empty()) { Meshes s; for (int o : seq) quiet([&] { meshOp(s, o); }); settles("mesh", [&] { meshOp(s, seq.back()); }, w); }
  // triangles handed out outlive the mesh, those nobody holds do not
  { Meshes s; for (int o : seq) quiet([&] { meshOp(s, o); });
    std::vector<std::weak_ptr<enve::triangleground const>> wk; std::vector<P3> v; TVec keep;
    for (size_t i = 0; i < (size_t)s.m[0]->size(); ++i) { auto p = (*s.m[0])[i]; wk.push_back(p); v.push_back(p3(p->vertex(0))); if (i % 2) keep.push_back(p); }
    bool other = !seq.empty() && (s.m[1]->size() || !s.held.empty()); s.m[0].reset();
    for (size_t i = 0, k = 0; i < wk.size(); ++i) {
      if (i % 2) { MC_OK(p3(keep[k++]->vertex(0)) == v[i], "outlives", "%s: triangle %zu changed when its mesh was destroyed", w.c_str(), i); }
      else if (!other) MC_OK(wk[i].expired(), "expires", "%s: triangle %zu outlives its mesh although nobody holds it", w.c_str(), i);
    } }
  for (size_t i = 0; i < seq.size(); ++i) mc::transition(); mc::trace(); uint64_t h = 1; for (int o : seq) h = mc::mix(h, o); mc::state(h); mc::nontrivial(!seq.empty());
}
// ---------------------------------------------------------------- shells
struct World { std::vector<GObj> g; std::vector<acme::affine> p; };
static World & world()
{
  static World w;
  if (w.g.empty()) {
    Ground s; s.name = "two"; s.t.push_back({{{-0.8, -0.7, 0.0123}, {0.9, -0.65, -0.02}, {0.0317, 0.81, 0.05}}, 0.8}); s.t.push_back({{{0.1, -0.7, 0.05}, {0.9, -0.65, 0.2}, {0.2, 0.81, 0.05}}, 0.3});
    Ground e; e.name = "empty";
    for (auto const & g : {flatGround(12, 33, 0.5), gridGround("bumpy", -1.013, 1.0071, 9, -1.0171, 1.0029, 10, [](double, double, int i, int j) { return bump(i, j, 0.12); }), s, e}) w.g.push_back(mkGround(g));
    for (auto const & p : {Pose{0.01, 0.004, 0.22, 0.3, 0.1, 0.7}, Pose{3, 4, 0.27, -2.1, -0.2, 5}, Pose{-0.2, 0.1, 0.15, 1.3, -0.1, 2.7}}) w.p.push_back(aff(p));
    acme::affine bad; bad.matrix() = 2 * acme::mat4::Identity(); bad.matrix()(3, 3) = 1; w.p.push_back(bad);
  }
  return w;
}
struct Shells { std::unique_ptr<enve::shell> s; bool set = false; };
static int const NSH = 4 * 4 * 2 + 12;
static std::string shName(int o)
{
  if (o < 32) return mc::fmt("setup(ground %d, pose %d, %s)", o / 8, o / 2 % 4, METHODS[o % 2]);
  char const * N[] = {"setup(ground 1, wrong method)", "setup(ground 0, wrong method)", "resize(1)", "resize(6)", "resize(0)", "translate", "rotate", "transform", "transform(not rigid)", "lists", "single values", "print"};
  return N[o - 32];
}
static void shOp(Shells & S, int o)
{
  enve::shell & s = *S.s; World & w = world();
  if (o < 32) { S.set = false; setup(s, w.g[o / 8], w.p[o / 2 % 4], METHODS[o % 2]); S.set = true; return; }
  switch (o - 32) {
    case 0: case 1: S.set = false; setup(s, w.g[o == 32], w.p[0], "nonsense"); break;
    case 2: S.set = false; s.resize(1); break; case 3: S.set = false; s.resize(6); break; case 4: S.set = false; s.resize(0); break;
    case 5: s.translate(acme::vec3(0.1, 0, 0.2)); break; case 6: s.rotate(0.3, acme::vec3(0, 1, 0)); break; case 7: s.transform(w.p[2]); break; case 8: s.transform(w.p[3]); break;
    case 9: if (S.set) { std::vector<acme::point> p; std::vector<acme::vec3> n; std::vector<acme::real> v; std::vector<acme::affine> A; s.contactPoint(p); s.contactNormal(n); s.contactVolume(v); s.contactDepth(v); s.contactFriction(v); s.contactArea(v); s.contactPointAffine(A); s.relativeAngles(n); } break;
    case 10: if (S.set) snap(s, true); s.surfaceRadius(0.02); s.bbox(); if (s.size()) { s.ribCenter(0); s.ribRadius(s.size() - 1); } break;
    case 11: if (S.set) { std::ostringstream os; s.print(os); } break;
  }
}
static void shHistory(std::vector<int> const & seq, size_t n, bool settle)
{
  std::string w = mc::fmt("wheel of %zu ribs", n); for (int o : seq) w += "; " + shName(o);
  auto mk1 = [&] { return std::unique_ptr<enve::shell>(new enve::shell(n, 0.31, 2, 0.15, 2, 0.1)); };
  balanced("shell", [&] { Shells s; s.s = mk1(); for (int o : seq) quiet([&] { shOp(s, o); }); }, w);
  if (settle && !seq.empty()) { Shells s; s.s = mk1(); for (int o : seq) quiet([&] { shOp(s, o); }); settles("shell", [&] { shOp(s, seq.back()); }, w); }
  for (size_t i = 0; i < seq.size(); ++i) mc::transition(); mc::trace(); uint64_t h = 2; for (int o : seq) h = mc::mix(h, o); mc::state(h); mc::nontrivial(!seq.empty());
}
// mesh and wheel gone, nothing of the mesh is left
static void shMesh(int m, int p)
{
  Shells s; s.s.reset(new enve::shell(5, 0.31, 2, 0.15, 2, 0.1)); std::string w = mc::fmt("wheel set with %s at pose %d", METHODS[m], p);
  std::vector<std::weak_ptr<enve::triangleground const>> wk;
  { enve::ground::mesh g(someTris(40)); for (int i = 0; i < 40; ++i) wk.push_back(g[i]); acme::affine A = world().p[p]; A.translation() += acme::vec3(5, 0, 0); quiet([&] { s.s->setup(g, A, METHODS[m]); }); }
  s.s.reset();
  int alive = 0; for (auto const & x : wk) alive += !x.expired();
  MC_OK(alive == 0, "expires", "%s: %d triangles outlive their mesh and the wheel", w.c_str(), alive);
  mc::nontrivial();
}
// ---------------------------------------------------------------- entities, boxes, trees, collections
static std::vector<geo::Ent> entities()
{
  using geo::Ent; P3 O = {0,0,0};
  return {{'P', {1,1,0}, {}, {}, 0}, {'P', O, {}, {}, 0}, {'L', O, {1,1,0}, {}, 0}, {'L', {0,0,1}, {1,0,0}, {}, 0}, {'R', {0,1,0}, {0,0,1}, {}, 0}, {'R', O, {1,0,0}, {}, 0}, {'N', {0,0,1}, {0,0,1}, {}, 0}, {'N', O, {0,0.6,0.8}, {}, 0},
    {'S', O, {2,2,1}, {}, 0}, {'S', {1,0,0}, {3,0,0}, {}, 0}, {'S', {0,0,0}, {2,0,0}, {}, 0}, {'T', O, {2,0,0}, {0,2,0}, 0}, {'T', {0,0,-1}, {2,0,1}, {0,2,1}, 0}, {'D', {1,0,0}, {0,0,1}, {}, 1.5}, {'D', O, {1,0,0}, {}, 1}, {'B', {0,1,1}, {}, {}, 0.7}, {'B', O, {}, {}, 2}};
}
typedef std::shared_ptr<acme::entity> EP;
struct Colls { std::unique_ptr<acme::collection> c, d; acme::collection out; Colls() : c(new acme::collection()), d(new acme::collection()) { d->push_back(std::make_shared<acme::segment>(acme::point(0, 0, 0), acme::point(1, 1, 1))); d->push_back(std::make_shared<acme::ball>(2.0, acme::point(0, 0, 0))); d->buildAABBtree(); } };
static char const * CO[] = {"push point", "push segment", "push triangle", "push plane", "push ball", "push none", "remove points", "remove unbounded", "shrink", "clear", "index", "translate", "boxes", "box query", "pairs with another", "pairs of an unindexed one", "intersections", "copy", "copy back", "print"};
static int const NCO = sizeof CO / sizeof *CO;
static void coOp(Colls & s, int o)
{
  acme::collection & c = *s.c;
  switch (o) {
    case 0: c.push_back(std::make_shared<acme::point>(1, 1, 0)); break; case 1: c.push_back(std::make_shared<acme::segment>(acme::point(0, 0, 0), acme::point(2, 2, 1))); break; case 2: c.push_back(std::make_shared<acme::triangle>(acme::point(0, 0, 0), acme::point(2, 0, 0), acme::point(0, 2, 1))); break;
    case 3: c.push_back(std::make_shared<acme::plane>(acme::point(0, 0, 1), acme::vec3(0, 0, 1))); break; case 4: c.push_back(std::make_shared<acme::ball>(0.7, acme::point(0, 1, 1))); break; case 5: c.push_back(std::make_shared<acme::none>()); break;
    case 6: c.removePoint(); break; case 7: c.removeNonClampable(); break; case 8: if (c.size()) c.resize(c.size() - 1); break; case 9: c.clear(); break; case 10: c.buildAABBtree(); break; case 11: c.translate(acme::vec3(1, 0, -2)); break;
    case 12: { acme::aabb::vecptr b; c.clamp(b); break; } case 13: { acme::collection r; c.buildAABBtree(); c.intersection(bx(-1, -1, -1, 1, 1, 1), r); break; }
    case 14: { acme::collection r; c.buildAABBtree(); s.d->buildAABBtree(); c.intersection(*s.d, r); s.d->intersection(c, r); break; } case 15: { acme::collection r, e; e.push_back(std::make_shared<acme::point>(1, 1, 0)); e.buildAABBtree(); s.d->buildAABBtree(); s.d->intersection(e, r); break; }
    case 16: { acme::collection r; c.intersection(r); break; } case 17: s.d.reset(new acme::collection(c)); break; case 18: { acme::collection k(*s.d); s.c.reset(new acme::collection(k)); break; }
    default: { std::ostringstream os; c.count(); for (int i = 0; i < (int)c.size(); ++i) c[i]->type(); } }
}
static bool grows(int o) { return o < 6 || o == 17 || o == 18; }
static void coHistory(std::vector<int> const & seq)
{
  std::string w; for (int o : seq) w += std::string(w.empty() ? "" : "; ") + CO[o];
  balanced("collection", [&] { Colls s; for (int o : seq) quiet([&] { coOp(s, o); }); }, w);
  if (!seq.empty() && !grows(seq.back())) { Colls s; for (int o : seq) quiet([&] { coOp(s, o); }); settles("collection", [&] { coOp(s, seq.back()); }, w); }
  // entities outlive their collection only where somebody holds them
  { Colls s; for (int o : seq) quiet([&] { coOp(s, o); }); std::vector<std::weak_ptr<acme::entity>> wk; EP first; for (int i = 0; i < (int)s.c->size(); ++i) { if (!i) first = (*s.c)[0]; wk.push_back((*s.c)[i]); }
    s.c.reset(); s.d.reset(); for (size_t i = 1; i < wk.size(); ++i) MC_OK(wk[i].expired() || wk[i].lock() == first, "expires", "%s: entity %zu outlives its collection although nobody holds it", w.c_str(), i);
    if (first) MC_OK(!first->type().empty(), "outlives", "%s: the first entity changed", w.c_str()); }
  for (size_t i = 0; i < seq.size(); ++i) mc::transition(); mc::trace(); uint64_t h = 3; for (int o : seq) h = mc::mix(h, o); mc::state(h); mc::nontrivial(!seq.empty());
}
struct Trees { std::unique_ptr<acme::AABBtree> t, u; Trees() : t(new acme::AABBtree()), u(new acme::AABBtree()) {} };
static char const * TO[] = {"build(empty)", "build(one box)", "build(five boxes)", "build(thirty boxes)", "build(same box ten times)", "clear", "new other", "swap", "pairs", "collision", "ask empty", "print"};
static int const NTO = sizeof TO / sizeof *TO;
static acme::aabb::vecptr boxes(int n, bool same) { acme::aabb::vecptr v; for (int i = 0; i < n; ++i) { double x = same ? 0 : i * 0.7; v.push_back(std::make_shared<acme::aabb const>(x, same ? 0. : i % 3, 0., x + 1, same ? 1. : i % 3 + 1., 1., i)); } return v; }
static void trOp(Trees & s, int o)
{
  switch (o) {
    case 0: s.t->build(boxes(0, false)); break; case 1: s.t->build(boxes(1, false)); break; case 2: s.t->build(boxes(5, false)); break; case 3: s.t->build(boxes(30, false)); break; case 4: s.t->build(boxes(10, true)); break;
    case 5: s.t->clear(); break; case 6: s.u.reset(new acme::AABBtree()), s.u->build(boxes(4, false)); break; case 7: std::swap(s.t, s.u); break;
    case 8: { acme::aabb::vecpairptr l; s.t->intersection(*s.u, l); s.u->intersection(*s.t, l, true); s.t->intersection(*s.t, l); break; }
    case 9: s.t->collision(*s.u, [](acme::aabb::ptr const &, acme::aabb::ptr const &) { return false; }); break;
    case 10: s.t->isEmpty(); break;
    default: { std::ostringstream os; s.t->print(os, 3); } }
}
static void trHistory(std::vector<int> const & seq)
{
  std::string w; for (int o : seq) w += std::string(w.empty() ? "" : "; ") + TO[o];
  balanced("tree", [&] { Trees s; for (int o : seq) quiet([&] { trOp(s, o); }); }, w);
  if (!seq.empty() && seq.back() != 7) { Trees s; for (int o : seq) quiet([&] { trOp(s, o); }); settles("tree", [&] { trOp(s, seq.back()); }, w); }
  { Trees s; for (int o : seq) quiet([&] { trOp(s, o); }); auto v = boxes(9, false); std::vector<std::weak_ptr<acme::aabb const>> wk(v.begin(), v.end()); s.t->build(v); v.clear();
    for (auto const & x : wk) MC_OK(!x.expired(), "outlives", "%s: a box of the tree is gone although the tree is there", w.c_str());
    s.t->clear(); for (auto const & x : wk) MC_OK(x.expired(), "expires", "%s; build; clear: a box outlives the cleared tree", w.c_str()); }
  for (size_t i = 0; i < seq.size(); ++i) mc::transition(); mc::trace(); uint64_t h = 4; for (int o : seq) h = mc::mix(h, o); mc::state(h); mc::nontrivial(!seq.empty());
}
// ---------------------------------------------------------------- S-function interface
static char const * SO[] = {"init(3 ribs, rdf)", "init(6 ribs, obj)", "init(0 ribs)", "init(zero radius)", "init(negative shape)", "init(negative flat friction)", "init(nan ribs width)", "init(bad file)", "init(missing file)", "init(wrong extension)", "init(short path)", "init(no environment)", "step(mesh, geometric)", "step(mesh, sampling)", "step(flat)", "step(wrong method)", "step(wrong flag)", "step(pose not rigid)", "end"};
static int const NSO = sizeof SO / sizeof *SO;
static void sfOp(int o)
{
  if (o < 12) {
    double n = o == 1 ? 6 : o == 2 ? 0 : 3, rx = o == 3 ? 0 : 0.31, mx = 2, ry = o == 4 ? -0.15 : 0.15, my = 2, ly = o == 6 ? std::nan("") : 0.1, h = 0.01, f = o == 5 ? -0.5 : 0.6;
    char const * file = o == 1 ? "./o.obj" : o == 7 ? "./badindex.rdf" : o == 8 ? "./nofile.rdf" : o == 9 ? "./r.txt" : o == 10 ? "a" : "./r.rdf";
    if (o == 11) unsetenv("ENVE_GROUND_PATH"); else setenv("ENVE_GROUND_PATH", file, 1);
    enve_sfun_init(&n, &rx, &mx, &ry, &my, &ly, &h, &f); return;
  }
  if (o == 18) { enve_sfun_end(); return; }
  EnveInputBus in; EnveOutputBus out; acme::affine A = o == 17 ? world().p[3] : aff(Pose{0.31, 0.24, 0.22, 0.3, 0.1, 0.7});
  for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) in.HubAffine[r + 4 * c] = A.matrix()(r, c);
  double method = o == 13 ? 1 : o == 15 ? 2 : 0, flat = o == 14 ? 1 : o == 16 ? 2 : 0;
  enve_sfun_out(&in, &out, &method, &flat);
}
static void sfHistory(std::vector<int> const & seq, bool settle)
{
  std::string w = "S-function"; for (int o : seq) w += std::string("; ") + SO[o];
  balanced("sfun", [&] { for (int o : seq) quiet([&] { sfOp(o); }); enve_sfun_end(); }, w + "; end");
  if (settle && !seq.empty()) { for (int o : seq) quiet([&] { sfOp(o); }); settles("sfun", [&] { sfOp(seq.back()); }, w); enve_sfun_end(); }
  for (size_t i = 0; i < seq.size(); ++i) mc::transition(); mc::trace(); uint64_t h = 5; for (int o : seq) h = mc::mix(h, o); mc::state(h); mc::nontrivial(!seq.empty());
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  wr("r.rdf", "[NODES]\n{ c }\n0 0 0 0\n1 1 0 0\n2 0 1 0\n3 1 1 0\n[ELEMENTS]\n0 1 2 1.0\n1 3 2 0.5\n");
  wr("r.txt", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n");
  wr("o.obj", "# c\nv 0 0 2\nv 1 0 2\nv 0 1 2\nv 1 1 3\nv -1 1 2\nf 1 2 3\nf 2 4 3\nf 1 3 5\n");
  wr("badindex.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n0 1 3 2.0\n");
  wr("badfriction.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n0 1 2 2.0\n0 2 1 -2.0\n");
  wr("empty.rdf", "[NODES]\n0 0 0 0\n1 1 0 0\n2 0 1 0\n[ELEMENTS]\n");
  wr("bad.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nf 1 2 3\nf 1 2 4\n");
  wr("garbage.rdf", "[NODES]\n0 zero 0 0\n");
  for (int n = 0; n <= (th ? 4 : 3); ++n) sequences(n, NMO, [&](std::vector<int> const & s) { mc::kase([&] { meshHistory(s, n <= 3); }, [&] { std::string d; for (int o : s) d += std::string(d.empty() ? "" : "; ") + MO[o]; return "mesh: " + d; }); });
  for (int n = 0; n <= (th ? 3 : 2); ++n) for (size_t ribs : std::vector<size_t>{1, 3}) sequences(n, NSH, [&](std::vector<int> const & s) { mc::kase([&] { shHistory(s, ribs, n <= 2); }, [&] { std::string d; for (int o : s) d += "; " + shName(o); return mc::fmt("wheel of %zu ribs", ribs) + d; }); });
  for (int m = 0; m < 2; ++m) for (int p = 0; p < 3; ++p) mc::kase([&] { shMesh(m, p); }, [&] { return mc::fmt("wheel and mesh, method %d, pose %d", m, p); });
  for (int n = 0; n <= (th ? 4 : 3); ++n) sequences(n, NCO, [&](std::vector<int> const & s) { mc::kase([&] { coHistory(s); }, [&] { std::string d; for (int o : s) d += std::string(d.empty() ? "" : "; ") + CO[o]; return "collection: " + d; }); });
  for (int n = 0; n <= (th ? 4 : 3); ++n) sequences(n, NTO, [&](std::vector<int> const & s) { mc::kase([&] { trHistory(s); }, [&] { std::string d; for (int o : s) d += std::string(d.empty() ? "" : "; ") + TO[o]; return "tree: " + d; }); });
  for (int n = 0; n <= (th ? 4 : 3); ++n) sequences(n, NSO, [&](std::vector<int> const & s) { mc::kase([&] { sfHistory(s, n <= 3); }, [&] { std::string d; for (int o : s) d += std::string("; ") + SO[o]; return "S-function" + d; }); });
  // wheels which cannot be built
  for (double v : {0.0, -0.3, std::nan("")}) for (int k = 0; k < 6; ++k) mc::kase([&] {
      balanced("shell", [&] { double p[6] = {3, 0.31, 2, 0.15, 2, 0.1}; p[k] = v; enve::shell s(k == 0 ? 0 : 3, p[1], p[2], p[3], p[4], p[5]); }, "refused wheel"); mc::nontrivial();
    }, [&] { return mc::fmt("wheel with parameter %d = %g", k, v); });
  // generic intersections, also those which are refused
  auto E = entities();
  for (size_t i = 0; i < E.size(); ++i) for (size_t j = 0; j < E.size(); ++j) mc::kase([&] {
      for (auto const & m : geo::maps()) { auto a = mkE(m, E[i]), b = mkE(m, E[j]);
        balanced("entity", [&] { for (double t : {1e-8, 0.1}) { geo::Res r(acme::Intersection(a.get(), b.get(), t)); } }, "generic intersection of " + str(E[i]) + " and " + str(E[j])); }
      mc::nontrivial();
    }, [&] { return "intersection of " + str(E[i]) + " and " + str(E[j]); });
  return mc::finish();
}
