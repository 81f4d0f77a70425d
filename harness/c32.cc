// C32: copies equal their source, are independent of it, and approximate
// equality decides every defining value of an object at the given tolerance.
#include "common.hh"
#include <memory>
typedef std::vector<double> Vals;
static P3 at3(Vals const & v, int i) { return {v[i], v[i + 1], v[i + 2]}; }
static void push(Vals & v, acme::vec3 const & p) { for (int i = 0; i < 3; ++i) v.push_back(p[i]); }
static void pushp(Vals & v, acme::point const & p) { for (int i = 0; i < 3; ++i) v.push_back(p[i]); }

// One kind of object: values -> object, object -> everything observable, copying.
// unit: index of a direction that must stay a unit vector, or -1
struct Kind {
  char const * name; std::vector<Vals> base; int nf; int unit; std::vector<int> whole; // whole: integer values
  std::function<std::shared_ptr<void>(Vals const &)> make;
  std::function<Vals(void const *)> see;
  std::function<void(void *, void const *)> copy;                   // copy() or operator=
  std::function<std::shared_ptr<void>(void const *)> clone;         // copy construction, when offered
  std::function<int(void const *, void const *, double)> approx;    // tolerance < 0: default one
  std::function<bool(void *, Vals const &)> set;                    // change every settable value in place, when offered
  bool assigned = false; std::vector<int> undecided;                                       // values the comparison need not look at
};
template <class T> static T & R(void * p) { return *static_cast<T *>(p); }
template <class T> static T const & C(void const * p) { return *static_cast<T const *>(p); }
template <class T> static std::shared_ptr<void> own(T * p) { return std::shared_ptr<T>(p); }
template <class T> static void comparable(Kind & k) { k.approx = [](void const * a, void const * b, double t) { return (int)(t < 0 ? C<T>(a).isApprox(C<T>(b)) : C<T>(a).isApprox(C<T>(b), t)); }; }
template <class T> static void assignable(Kind & k)
{
  k.assigned = true; k.copy = [](void * a, void const * b) { R<T>(a) = C<T>(b); };
  k.clone = [](void const * a) { return own(new T(C<T>(a))); };
}
template <class T> static void copyable(Kind & k) { k.copy = [](void * a, void const * b) { R<T>(a).copy(C<T>(b)); }; }

static enve::ground::flat const & refFlat() { static enve::ground::flat f(0.75, acme::point(0.1, 0.2, -0.8), acme::vec3(0.1, -0.05, 1)); return f; }
static std::vector<Kind> kinds()
{
  std::vector<Kind> ks; Kind k;
  auto start = [&](char const * n, std::vector<Vals> const & b, int unit = -1) { k = Kind(); k.name = n; k.base = b; k.nf = (int)b[0].size(); k.unit = unit; };
  auto done = [&] { ks.push_back(k); };

  start("point", {{1, 2, -1}, {0.5, -3, 2}, {-1, 1, 1}}); comparable<acme::point>(k); assignable<acme::point>(k);
  k.make = [](Vals const & v) { return own(new acme::point(v[0], v[1], v[2])); }; k.see = [](void const * p) { Vals v; pushp(v, C<acme::point>(p)); return v; };
  k.set = [](void * p, Vals const & v) { for (int i = 0; i < 3; ++i) R<acme::point>(p)[i] = v[i]; return true; }; done();

  std::vector<Vals> od = {{1, 2, -1, 0.6, 0, 0.8}, {0.5, -3, 2, 0, 0.8, 0.6}, {-1, 1, 1, 2. / 3, -1. / 3, 2. / 3}};
#define OD(T, D) start(#T, od, 3); comparable<acme::T>(k); assignable<acme::T>(k); \
  k.make = [](Vals const & v) { return own(new acme::T(ap(at3(v, 0)), av(at3(v, 3)))); }; k.see = [](void const * p) { Vals v; pushp(v, C<acme::T>(p).origin()); push(v, C<acme::T>(p).D()); return v; }; \
  k.set = [](void * p, Vals const & v) { R<acme::T>(p).origin() = ap(at3(v, 0)); R<acme::T>(p).D() = av(at3(v, 3)); return true; }; done();
  OD(line, direction) OD(ray, direction) OD(plane, normal)

  start("segment", {{1, 2, -1, 2, 0.5, 1}, {0.5, -3, 2, 1, 1, 1}, {-1, 1, 1, 3, -1, -2}}); comparable<acme::segment>(k); assignable<acme::segment>(k);
  k.make = [](Vals const & v) { return own(new acme::segment(ap(at3(v, 0)), ap(at3(v, 3)))); };
  k.see = [](void const * p) { Vals v; for (int i = 0; i < 2; ++i) pushp(v, C<acme::segment>(p).vertex(i)); return v; };
  k.set = [](void * p, Vals const & v) { for (int i = 0; i < 2; ++i) R<acme::segment>(p).vertex(i) = ap(at3(v, 3 * i)); return true; }; done();

  std::vector<Vals> tv = {{1, 2, -1, 2, 0.5, 1, -1, -2, 0.5}, {0.5, -3, 2, 1, 1, 1, -2, 3, 1}, {-1, 1, 1, 3, -1, -2, 0.5, 2, 2}};
  start("triangle", tv); comparable<acme::triangle>(k); assignable<acme::triangle>(k);
  k.make = [](Vals const & v) { return own(new acme::triangle(ap(at3(v, 0)), ap(at3(v, 3)), ap(at3(v, 6)))); };
  k.see = [](void const * p) { Vals v; for (int i = 0; i < 3; ++i) pushp(v, C<acme::triangle>(p).vertex(i)); return v; };
  k.set = [](void * p, Vals const & v) { for (int i = 0; i < 3; ++i) R<acme::triangle>(p).vertex(i) = ap(at3(v, 3 * i)); return true; }; done();

  start("disk", {{1.5, 1, 2, -1, 0.6, 0, 0.8}, {0.5, 0.5, -3, 2, 0, 0.8, 0.6}, {2, -1, 1, 1, 2. / 3, -1. / 3, 2. / 3}}, 4); comparable<acme::disk>(k); assignable<acme::disk>(k);
  k.make = [](Vals const & v) { return own(new acme::disk(v[0], ap(at3(v, 1)), av(at3(v, 4)))); };
  k.see = [](void const * p) { Vals v = {C<acme::disk>(p).radius()}; pushp(v, C<acme::disk>(p).center()); push(v, C<acme::disk>(p).normal()); return v; };
  k.set = [](void * p, Vals const & v) { auto & d = R<acme::disk>(p); d.radius() = v[0]; d.center() = ap(at3(v, 1)); d.normal() = av(at3(v, 4)); return true; }; done();

  start("ball", {{1.5, 1, 2, -1}, {0.5, 0.5, -3, 2}, {2, -1, 1, 1}}); comparable<acme::ball>(k); assignable<acme::ball>(k);
  k.make = [](Vals const & v) { return own(new acme::ball(v[0], ap(at3(v, 1)))); };
  k.see = [](void const * p) { Vals v = {C<acme::ball>(p).radius()}; pushp(v, C<acme::ball>(p).center()); return v; };
  k.set = [](void * p, Vals const & v) { R<acme::ball>(p).radius() = v[0]; R<acme::ball>(p).center() = ap(at3(v, 1)); return true; }; done();

  start("aabb", {{-1, -2, -3, 1, 2, 3}, {0.5, -3, 1, 1, 1, 2}, {1, 1, 1, 3, 4, 2}}); comparable<acme::aabb>(k); assignable<acme::aabb>(k);
  k.make = [](Vals const & v) { return own(new acme::aabb(ap(at3(v, 0)), ap(at3(v, 3)), 4, 9)); };
  k.see = [](void const * p) { Vals v; pushp(v, C<acme::aabb>(p).min()); pushp(v, C<acme::aabb>(p).max()); v.push_back(C<acme::aabb>(p).id()); v.push_back(C<acme::aabb>(p).pos()); return v; }; done();

  start("shape", {{0.3, 4, 0.2, 2, 0.1}, {0.5, 9, 0.3, 6, 0.25}, {1, 2, 1, 2, 0.5}}); comparable<enve::shape>(k); copyable<enve::shape>(k);
  k.clone = [](void const * a) { return own(new enve::shape(C<enve::shape>(a))); };
  k.make = [](Vals const & v) { return own(new enve::shape(v[0], v[1], v[2], v[3], v[4])); };
  k.see = [](void const * p) { auto & s = C<enve::shape>(p); Vals v = {s.Rx(), s.Mx(), s.Ry(), s.My(), s.Ly()}; for (double y : {0.0, 0.03, -0.09}) { v.push_back(s.surfaceRadius(y)); v.push_back(s.surfaceDerivative(y)); v.push_back(s.surfaceAngle(y)); } v.push_back(s.checkWidthBound(0.15)); return v; };
  k.set = [](void * p, Vals const & v) { auto & s = R<enve::shape>(p); s.Rx() = v[0]; s.Mx() = v[1]; s.Ry() = v[2]; s.My() = v[3]; s.Ly() = v[4]; return true; }; done();

  start("rib", {{3, 1, 0.2, 0.1, 0.05}, {1, 0.5, -0.3, 0.25, -0.2}, {2, 2, 1, 0.5, 0.4}}); comparable<enve::rib>(k); copyable<enve::rib>(k); k.whole = {0};
  k.clone = [](void const * a) { return own(new enve::rib(C<enve::rib>(a))); };
  k.make = [](Vals const & v) { return own(new enve::rib((int)v[0], v[1], v[2], v[3], v[4])); };
  k.see = [](void const * p) {
    auto & r = C<enve::rib>(p); Vals v = {r.radius(), r.width(), r.angle()}; pushp(v, r.center()); push(v, r.normal());
    for (char const * m : METHODS) for (double z : {0.0, 0.4}) { enve::output o; v.push_back(r.envelop(refFlat(), aff(Pose{0, 0, z, 0.3, 0.1, 0.2}), m, o)); pushp(v, o.point); push(v, o.normal); for (double d : {o.depth, o.area, o.volume, o.friction}) v.push_back(d); }
    return v;
  };
  // two ribs are told apart by their number as well: it is seen by comparing
  k.set = [](void *, Vals const &) { return false; }; done();

  start("flat", {{0.5, 1, 2, -1, 0.6, 0, 0.8}, {1, 0.5, -3, 2, 0, 0.8, 0.6}, {0.25, -1, 1, 1, 2. / 3, -1. / 3, 2. / 3}}, 4); comparable<enve::ground::flat>(k); copyable<enve::ground::flat>(k);
  k.make = [](Vals const & v) { return own(new enve::ground::flat(v[0], ap(at3(v, 1)), av(at3(v, 4)))); };
  k.see = [](void const * p) {
    auto & f = C<enve::ground::flat>(p); acme::plane const & l = f.layingPlane(); Vals v = {f.friction()}; pushp(v, l.origin()); push(v, l.normal());
    enve::rib r(0, 3.5, 0, 0.1, 0); enve::output o; v.push_back(r.envelop(f, aff(Pose{0, 0, 0, 0.3, 0.1, 0.2}), "geometric", o)); push(v, o.normal); v.push_back(o.friction); v.push_back(o.volume); return v;
  };
  k.set = [](void * p, Vals const & v) { auto & f = R<enve::ground::flat>(p); f.friction() = v[0]; f.origin() = ap(at3(v, 1)); f.layingPlane().normal() = av(at3(v, 4)); return true; }; done();

  std::vector<Vals> gv; for (size_t i = 0; i < tv.size(); ++i) { Vals v = {(double)(3 + 4 * i), 0.25 + 0.5 * i}; v.insert(v.end(), tv[i].begin(), tv[i].end()); gv.push_back(v); }
  start("triangleground", gv); comparable<enve::triangleground>(k); copyable<enve::triangleground>(k); k.whole = {0}; k.undecided = {0};
  k.make = [](Vals const & v) { return own(new enve::triangleground((int)v[0], v[1], ap(at3(v, 2)), ap(at3(v, 5)), ap(at3(v, 8)))); };
  k.see = [](void const * p) {
    auto & t = C<enve::triangleground>(p); Vals v = {(double)t.id(), t.friction()}; for (int i = 0; i < 3; ++i) pushp(v, t.vertex(i)); push(v, t.normal());
    for (int i = 0; i < 3; ++i) { v.push_back(t.bbox().min(i)); v.push_back(t.bbox().max(i)); } v.push_back(t.bbox().id()); return v;
  }; done();
  return ks;
}
static bool same(Vals const & a, Vals const & b)
{
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]) || std::abs(a[i] - b[i]) <= 1e-13 * (1 + std::abs(a[i])))) return false;
  return true;
}
static Vals unitAt(Vals v, int u) { if (u >= 0) { P3 n = unit(at3(v, u)); for (int i = 0; i < 3; ++i) v[u + i] = n[i]; } return v; }

// ---------------------------------------------------------------- equality against one changed value
static const double DELTAS[] = {0.2, 1e-3, 1e-6};
static void equality(Kind const & k, size_t b, int f, int d)
{
  Vals v = k.base[b], w = v; double delta = DELTAS[d]; bool whole = std::count(k.whole.begin(), k.whole.end(), f) > 0;
  if (whole) { w[f] += 1 + d; delta = 1; } else { w[f] += delta * std::max(1.0, std::abs(v[f])); w = unitAt(w, k.unit); }
  auto x = k.make(v), y = k.make(w), x2 = k.make(v); mc::transition(); mc::nontrivial();
  auto both = [&](double tol, int want, char const * what) {
    for (int s = 0; s < 2; ++s) { int got = k.approx(s ? y.get() : x.get(), s ? x.get() : y.get(), tol); MC_OK(got == want, "equal", "%s base %zu: %s at tolerance %g although value %d differs by %g (%s)", k.name, b, got ? "equal" : "not equal", tol, f, delta, what); }
  };
  if (!std::count(k.undecided.begin(), k.undecided.end(), f)) {
    both(delta * 1e-3, 0, "tighter tolerance");
    if (!whole && d < 2) both(-1, 0, "default tolerance");
    if (!whole && d > 0) { both(delta * 1e3, 1, "wider tolerance"); both(1, 1, "wider tolerance"); }
  }
  for (double tol : {-1.0, 1e-12, 1e-3, 0.5}) MC_OK(k.approx(x.get(), x2.get(), tol) && k.approx(x.get(), x.get(), tol), "reflexive", "%s base %zu is not equal to itself at tolerance %g", k.name, b, tol);
  MC_OK(whole || !same(k.see(x.get()), k.see(y.get())), "construct", "%s: value %d has no effect", k.name, f);
  mc::outcome(mc::mix(mc::mix(f, d), b));
}
// ---------------------------------------------------------------- histories over three objects
struct Slot { std::shared_ptr<void> p; Vals v; };
static int nops(Kind const & k) { (void)k; return 9 + 6 + 3 + 3; }
static std::string opName(int o)
{
  if (o < 9) return mc::fmt("%d copies %d", o / 3, o % 3);
  o -= 9; if (o < 6) return mc::fmt("change %d to base %d", o / 2, 1 + o % 2);
  o -= 6; if (o < 3) return mc::fmt("%d becomes a clone of %d", o, (o + 1) % 3);
  return mc::fmt("destroy and rebuild %d", o - 3);
}
static void history(Kind const & k, std::vector<int> const & seq)
{
  Slot s[3]; for (int i = 0; i < 3; ++i) { s[i].v = k.base[i]; s[i].p = k.make(k.base[i]); }
  for (int o0 : seq) {
    int o = o0; mc::transition();
    if (o < 9) { int i = o / 3, j = o % 3; k.copy(s[i].p.get(), s[j].p.get()); s[i].v = s[j].v; }
    else if ((o -= 9) < 6) { int i = o / 2; Vals w = k.base[1 + o % 2]; if (k.set && k.set(s[i].p.get(), w)) s[i].v = w; else { auto t = k.make(w); k.copy(s[i].p.get(), t.get()); s[i].v = w; } }
    else if ((o -= 6) < 3) { int j = (o + 1) % 3; if (k.clone) { auto c = k.clone(s[j].p.get()); s[o].p = c; s[o].v = s[j].v; } }
    else { o -= 3; s[o].p.reset(); s[o].p = k.make(k.base[o]); s[o].v = k.base[o]; }
    uint64_t h = mc::hs(k.name);
    for (int i = 0; i < 3; ++i) {
      auto fresh = k.make(s[i].v); for (double d : s[i].v) h = mc::mixd(h, d);
      MC_OK(same(k.see(s[i].p.get()), k.see(fresh.get())), "copy", "%s: object %d does not behave as one built from its values", k.name, i);
      MC_OK(k.approx(s[i].p.get(), fresh.get(), -1) && k.approx(fresh.get(), s[i].p.get(), 1e-12), "copy", "%s: object %d does not equal one built from its values", k.name, i);
      for (int j = 0; j < 3; ++j) { int e = s[i].v == s[j].v; MC_OK(k.approx(s[i].p.get(), s[j].p.get(), -1) == e, "equal", "%s: objects %d and %d are %s", k.name, i, j, e ? "not equal after copying" : "equal although they differ"); }
    }
    mc::state(h); mc::nontrivial();
  }
}
// ---------------------------------------------------------------- meshes share elements, not their list
static Vals seeMesh(enve::ground::mesh const & m)
{
  Vals v = {(double)m.size()}; for (size_t i = 0; i < m.size(); ++i) { v.push_back(m[i]->id()); v.push_back(m[i]->friction()); for (int c = 0; c < 3; ++c) pushp(v, m[i]->vertex(c)); }
  for (double x : {-5.0, 0.0, 3.0}) { TVec out; m.intersection(std::make_shared<acme::aabb>(acme::point(x, -9, -9), acme::point(x + 2.5, 9, 9)), out); Vals ids; for (auto & t : out) ids.push_back(t->id()); std::sort(ids.begin(), ids.end()); v.push_back(-77); v.insert(v.end(), ids.begin(), ids.end()); }
  return v;
}
static TVec meshList(int b)
{ TVec l; for (int i = 0; i < (b == 0 ? 0 : 2 * b - 1); ++i) l.push_back(tri(10 * b + i, 0.5 + 0.1 * i, {-4.0 + 3 * i + b, 0, 0}, {-3.0 + 3 * i + b, 1, 0.5}, {-4.0 + 3 * i + b, 2, 0})); return l; }
static void meshHistory(std::vector<int> const & seq)
{
  std::unique_ptr<enve::ground::mesh> m[3]; TVec v[3];
  for (int i = 0; i < 3; ++i) { v[i] = meshList(i); m[i].reset(i ? new enve::ground::mesh(v[i]) : new enve::ground::mesh()); }
  for (int o : seq) {
    mc::transition();
    if (o < 9) { m[o / 3]->copy(*m[o % 3]); v[o / 3] = v[o % 3]; }
    else if (o < 12) { m[o - 9]->clear(); v[o - 9].clear(); }
    else { int i = o - 12; v[i] = meshList(2); m[i].reset(new enve::ground::mesh(v[i])); }
    uint64_t h = 7;
    for (int i = 0; i < 3; ++i) { enve::ground::mesh f(v[i]); h = mc::mix(h, v[i].size()); MC_OK(same(seeMesh(*m[i]), seeMesh(f)), "copy", "mesh %d does not behave as one built from its triangles", i); }
    mc::state(h); mc::nontrivial();
  }
}
template <class F> static void sequences(int n, int depth, F f)
{
  std::vector<int> s(depth, 0);
  while (true) { f(s); int i = depth - 1; while (i >= 0 && ++s[i] == n) s[i--] = 0; if (i < 0) return; }
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv); bool th = mc::thorough(); std::vector<Kind> ks = kinds();
  for (auto const & k : ks) {
    for (size_t b = 0; b < k.base.size(); ++b) for (int f = 0; f < k.nf; ++f) for (int d = 0; d < 3; ++d)
      mc::kase([&] { equality(k, b, f, d); }, [&] { return mc::fmt("%s base %zu, value %d changed by %g", k.name, b, f, DELTAS[d]); });
    sequences(nops(k), th && !k.assigned ? 4 : 3, [&](std::vector<int> const & s) {
      mc::kase([&] { history(k, s); }, [&] { std::string t = k.name; for (int o : s) t += "; " + opName(o); return t; }); });
  }
  sequences(15, th ? 5 : 3, [&](std::vector<int> const & s) {
    mc::kase([&] { meshHistory(s); }, [&] { std::string t = "meshes"; for (int o : s) t += mc::fmt(" %d", o); return t + " (0-8 copy, 9-11 clear, 12-14 rebuild)"; }); });
  return mc::finish();
}
