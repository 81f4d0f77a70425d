// C29: operation histories of entity collections against a list model.
#include "acmeres.hh"
#include <map>
using namespace geo;
typedef acme::entity::ptr Ptr; typedef std::array<double,6> Box;
static const char * KIND[12] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball", "degenerated", "clampable", "non-clampable"};
struct Item { char k; Ent e; bool deg; Ptr p; M3 R; P3 o; }; // expected point set: o + R*e
typedef std::shared_ptr<Item> IP;
static bool isKind(Item const & i, int k)
{
  static const std::string L = "0PLRNSTDB";
  if (k < 9) return i.k == L[k];
  if (k == 9) return i.deg;
  bool c = i.k == 'P' || i.k == 'S' || i.k == 'T' || i.k == 'D' || i.k == 'B', u = i.k == 'L' || i.k == 'R' || i.k == 'N';
  return k == 10 ? c : u;
}
static std::vector<Item> const & protos()
{
  static std::vector<Item> v;
  if (v.empty()) {
    M3 I = {P3{1,0,0}, P3{0,1,0}, P3{0,0,1}}; P3 O = {0,0,0};
    auto add = [&](Ent e, bool d = false) { v.push_back({e.k, e, d, {}, I, O}); };
    add({'0', {}, {}, {}, 0}, true); add({'P', {1,1,0}, {}, {}, 0}); add({'L', {0,0,0}, {1,1,0}, {}, 0}); add({'R', {0,1,0}, {0,0,2}, {}, 0}); add({'N', {0,0,1}, {0,1,1}, {}, 0});
    add({'S', {0,0,0}, {2,2,1}, {}, 0}); add({'T', {0,0,0}, {2,0,0}, {0,2,1}, 0}); add({'D', {1,0,0}, {0,0,1}, {}, 1.5}); add({'B', {0,1,1}, {}, {}, 0.7});
    add({'S', {5,1,2}, {5,1,2}, {}, 0}, true); add({'S', {6,6,6}, {8,6,7}, {}, 0}); add({'B', {1,2,1}, {}, {}, 0}, true);
    // degenerate entities of the other kinds (only in starting collections)
    add({'D', {1,1,1}, {0,0,1}, {}, 0}, true); add({'T', {0,0,0}, {1,1,1}, {1,1,1}, 0}, true); add({'T', {3,1,1}, {3,1,1}, {3,1,1}, 0}, true);
    add({'L', {0,1,0}, {0,0,0}, {}, 0}, true); add({'R', {1,1,0}, {0,0,0}, {}, 0}, true); add({'N', {0,1,1}, {0,0,0}, {}, 0}, true);
  }
  return v;
}
static IP make(int i)
{
  IP r = std::make_shared<Item>(protos()[i]);
  if (r->k == '0') r->p = std::make_shared<acme::none>(); else r->p = mkE(maps()[0], r->e);
  return r;
}
static P3 at3(Item const & i, P3 const & p) { return i.o + mul(i.R, p); }
static bool nr(P3 const & g, P3 const & w) { return finite(g) && norm(g - w) < 1e-9 * (1 + norm(w)); }
static bool isMoved(Item const & i)
{
  Ent const & e = i.e; P3 a = at3(i, e.a), d = mul(i.R, e.b); acme::entity & E = *i.p;
  switch (i.k) {
    case 'P': return nr(p3(dynamic_cast<acme::point &>(E)), a); case 'L': { auto & l = dynamic_cast<acme::line &>(E); return nr(p3(l.origin()), a) && nr(p3(l.direction()), d); }
    case 'R': { auto & l = dynamic_cast<acme::ray &>(E); return nr(p3(l.origin()), a) && nr(p3(l.direction()), d); } case 'N': { auto & l = dynamic_cast<acme::plane &>(E); return nr(p3(l.origin()), a) && nr(p3(l.normal()), d); }
    case 'S': { auto & s = dynamic_cast<acme::segment &>(E); return nr(p3(s[0]), a) && nr(p3(s[1]), at3(i, e.b)); } case 'T': { auto & t = dynamic_cast<acme::triangle &>(E); return nr(p3(t[0]), a) && nr(p3(t[1]), at3(i, e.b)) && nr(p3(t[2]), at3(i, e.c)); }
    case 'D': { auto & t = dynamic_cast<acme::disk &>(E); return nr(p3(t.center()), a) && nr(p3(t.normal()), d) && t.radius() == e.r; } case 'B': { auto & t = dynamic_cast<acme::ball &>(E); return nr(p3(t.center()), a) && t.radius() == e.r; }
  }
  return E.isNone();
}
static Box boxOf(acme::entity const & e) { acme::vec3 a, b; e.clamp(a, b); return {a[0], a[1], a[2], b[0], b[1], b[2]}; }
static bool overlap(Box const & a, Box const & b) { for (int i = 0; i < 3; ++i) if (a[i] > b[3+i] || b[i] > a[3+i]) return false; return true; }
// model of one collection
struct Model { std::vector<IP> v; std::vector<Ptr> ix; std::vector<Box> bx; bool
  current() const { if (ix.size() != v.size()) return false; for (size_t i = 0; i < v.size(); ++i) if (ix[i] != v[i]->p || boxOf(*ix[i]) != bx[i]) return false; return true; } };
struct Coll { std::unique_ptr<acme::collection> c; Model m; };
static int const NP = 12, NR = 12, NO = NP + NR + 9;
static std::string opName(int o)
{
  static char const * P[12] = {"none", "point", "line", "ray", "plane", "segment", "triangle", "disk", "ball", "segment of no length", "far segment", "ball of no radius"};
  if (o < NP) return std::string("push ") + P[o];
  o -= NP; if (o < NR) return std::string("remove ") + KIND[o];
  static char const * R[9] = {"shrink", "grow with a point", "clear", "index", "translate", "rotate", "transform", "replace first by triangle", "copy"};
  return R[o - NR];
}
static void removeKind(acme::collection & c, int k)
{
  switch (k) { case 0: c.removeNone(); break; case 1: c.removePoint(); break; case 2: c.removeLine(); break; case 3: c.removeRay(); break; case 4: c.removePlane(); break; case 5: c.removeSegment(); break;
    case 6: c.removeTriangle(); break; case 7: c.removeDisk(); break; case 8: c.removeBall(); break; case 9: c.removeDegenerated(); break; case 10: c.removeClampable(); break; default: c.removeNonClampable(); }
}
static void motion(Model & m, M3 const & R, P3 const & t)
{ for (auto & i : m.v) { M3 S; for (int k = 0; k < 3; ++k) S[k] = mul(R, i->R[k]); i->R = S; i->o = mul(R, i->o) + t; } }
static const M3 I3 = {P3{1,0,0}, P3{0,1,0}, P3{0,0,1}};
static void step(std::vector<Coll> & cs, int o, std::string const & w)
{
  acme::collection & c = *cs.back().c; Model & m = cs.back().m;
  if (o < NP) { IP p = make(o); c.push_back(p->p); m.v.push_back(p); return; }
  o -= NP;
  if (o < NR) { removeKind(c, o); std::vector<IP> k; for (auto & i : m.v) if (!isKind(*i, o)) k.push_back(i); m.v = k; return; }
  switch (o - NR) {
    case 0: if (!m.v.empty()) { c.resize(m.v.size() - 1); m.v.pop_back(); } break;
    case 1: { IP p = make(1); c.resize(m.v.size() + 1); c[m.v.size()] = p->p; m.v.push_back(p); break; }
    case 2: c.clear(); m.v.clear(); m.ix.clear(); m.bx.clear(); break;
    case 3: {
      bool bad = false; for (auto & i : m.v) if (!isKind(*i, 10)) bad = true;
      bool thrown = false; try { c.buildAABBtree(); } catch (std::exception const &) { thrown = true; }
      MC_OK(thrown == bad, "index-refused", "%s: building the index %s", w.c_str(), thrown ? "failed although all entities are bounded" : "accepted an unbounded entity");
      if (!thrown) { m.ix.clear(); m.bx.clear(); for (auto & i : m.v) { m.ix.push_back(i->p); m.bx.push_back(boxOf(*i->p)); } }
      break; }
    case 4: c.translate(acme::vec3(1, 0, -2)); motion(m, I3, {1,0,-2}); break;
    case 5: { double co = std::cos(0.7), si = std::sin(0.7); c.rotate(0.7, acme::vec3(0, 0, 1)); motion(m, {P3{co,si,0}, P3{-si,co,0}, P3{0,0,1}}, {0,0,0}); break; }
    case 6: { Pose p = {0.5,-1,0.25,0.4,-0.3,1.1}; c.transform(aff(p)); motion(m, rot(p), {p.x, p.y, p.z}); break; }
    case 7: if (!m.v.empty()) { IP p = make(6); c[0] = p->p; m.v[0] = p; } break;
    case 8: { Coll n; n.c.reset(new acme::collection(c)); n.m = m; cs.push_back(std::move(n)); break; }
  }
}
static std::string content(Model const & m) { std::string s = "["; for (auto & i : m.v) s += (s.size() > 1 ? "," : "") + std::string(KIND[std::string("0PLRNSTDB").find(i->k)]); return s + "]"; }
static void check(Coll & C, std::string const & w, std::vector<Box> const & queries, bool pairs)
{
  acme::collection & c = *C.c; acme::collection const & cc = c; Model & m = C.m; int n = m.v.size();
  MC_OK(c.size() == n, "size", "%s: size %d instead of %d", w.c_str(), (int)c.size(), n);
  if (c.size() != n) return;
  for (int i = 0; i < n; ++i) {
    MC_OK(c[i] == m.v[i]->p && cc[i] == m.v[i]->p, "content", "%s: entity %d is another one than in %s", w.c_str(), i, content(m).c_str());
    if (c[i] != m.v[i]->p) return;
    MC_OK(isMoved(*m.v[i]), "moved", "%s: entity %d of %s is not the moved one", w.c_str(), i, content(m).c_str());
  }
  bool (acme::collection::*has[12])() const = {&acme::collection::containNone, &acme::collection::containPoint, &acme::collection::containLine, &acme::collection::containRay, &acme::collection::containPlane, &acme::collection::containSegment, &acme::collection::containTriangle, &acme::collection::containDisk, &acme::collection::containBall, nullptr, &acme::collection::containClampable, &acme::collection::containNonClampable};
  bool (acme::collection::*are[12])() const = {&acme::collection::areNone, &acme::collection::arePoint, &acme::collection::areLine, &acme::collection::areRay, &acme::collection::arePlane, &acme::collection::areSegment, &acme::collection::areTriangle, &acme::collection::areDisk, &acme::collection::areBall, nullptr, &acme::collection::areClampable, &acme::collection::areNonClampable};
  bool (acme::collection::*isk[12])(acme::integer) const = {&acme::collection::isNone, &acme::collection::isPoint, &acme::collection::isLine, &acme::collection::isRay, &acme::collection::isPlane, &acme::collection::isSegment, &acme::collection::isTriangle, &acme::collection::isDisk, &acme::collection::isBall, nullptr, &acme::collection::isClampable, &acme::collection::isNonClampable};
  acme::integer (acme::collection::*cnt[12])() const = {&acme::collection::countNone, &acme::collection::countPoint, &acme::collection::countLine, &acme::collection::countRay, &acme::collection::countPlane, &acme::collection::countSegment, &acme::collection::countTriangle, &acme::collection::countDisk, &acme::collection::countBall, nullptr, &acme::collection::countClampable, &acme::collection::countNonClampable};
  auto all = c.count();
  MC_OK(all.size() == 12, "count", "%s: the summary lists %d kinds", w.c_str(), (int)all.size());
  for (int k = 0; k < 12; ++k) {
    int want = 0; for (auto & i : m.v) want += isKind(*i, k);
    int g = k == 9 ? c.countDegenerated() : (c.*cnt[k])(); bool h = k == 9 ? c.containDegenerated() : (c.*has[k])(), a = k == 9 ? c.areDegenerated() : (c.*are[k])();
    MC_OK(g == want && all.count(KIND[k]) && all[KIND[k]] == want, "count", "%s: %d %s counted in %s (summary %d)", w.c_str(), g, KIND[k], content(m).c_str(), (int)all[KIND[k]]);
    MC_OK(h == (want > 0), "contain", "%s: contains %s is %d in %s", w.c_str(), KIND[k], h, content(m).c_str());
    if (n) MC_OK(a == (want == n), "are", "%s: all are %s is %d in %s", w.c_str(), KIND[k], a, content(m).c_str());
    for (int i = 0; i < n; ++i) { bool q = k == 9 ? c.isDegenerated(i) : (c.*isk[k])(i); MC_OK(q == isKind(*m.v[i], k), "is", "%s: entity %d is %s is %d in %s", w.c_str(), i, KIND[k], q, content(m).c_str()); }
  }
  // boxes
  bool bad = false; for (auto & i : m.v) if (!isKind(*i, 10)) bad = true;
  acme::aabb::vecptr bs; bool thrown = false; try { c.clamp(bs); } catch (std::exception const &) { thrown = true; }
  MC_OK(thrown == bad, "boxes-refused", "%s: boxes of %s %s", w.c_str(), content(m).c_str(), thrown ? "failed" : "accepted");
  if (!thrown) {
    MC_OK((int)bs.size() == n, "boxes", "%s: %d boxes for %s", w.c_str(), (int)bs.size(), content(m).c_str());
    for (int i = 0; i < n && i < (int)bs.size(); ++i) { Box b = boxOf(*m.v[i]->p); bool ok = bs[i]->id() == i; for (int k = 0; k < 3; ++k) ok = ok && bs[i]->min(k) == b[k] && bs[i]->max(k) == b[3+k]; MC_OK(ok, "boxes", "%s: box %d of %s is another one", w.c_str(), i, content(m).c_str()); }
  }
  // index
  if (m.current()) {
    acme::collection out; acme::aabb::vecptr qs;
    auto sorted = [](acme::collection const & o) { std::vector<acme::entity *> r; for (int i = 0; i < o.size(); ++i) r.push_back(o[i].get()); std::sort(r.begin(), r.end()); return r; };
    std::vector<acme::entity *> every;
    for (auto const & q : queries) {
      auto b = std::make_shared<acme::aabb const>(q[0], q[1], q[2], q[3], q[4], q[5], 0, 0); qs.push_back(b);
      std::vector<acme::entity *> want; for (int i = 0; i < n; ++i) if (overlap(m.bx[i], q)) want.push_back(m.v[i]->p.get());
      every.insert(every.end(), want.begin(), want.end()); std::sort(want.begin(), want.end());
      bool r = c.intersection(b, out); MC_OK(r == !want.empty() && sorted(out) == want, "candidates", "%s: box query gives %d of %d entities of %s", w.c_str(), (int)out.size(), (int)want.size(), content(m).c_str());
    }
    std::sort(every.begin(), every.end());
    bool r = c.intersection(qs, out); MC_OK(r == !every.empty() && sorted(out) == every, "candidates", "%s: query of several boxes gives %d of %d entities of %s", w.c_str(), (int)out.size(), (int)every.size(), content(m).c_str());
    auto t = std::make_shared<acme::AABBtree>(); t->build(qs); r = c.intersection(t, out); MC_OK(r == !every.empty() && sorted(out) == every, "candidates", "%s: query of a tree gives %d of %d entities of %s", w.c_str(), (int)out.size(), (int)every.size(), content(m).c_str());
    // against another collection: pairs in argument order
    acme::collection other; std::vector<IP> ov = {make(5), make(8), make(1), make(10)}; for (auto & i : ov) other.push_back(i->p); other.buildAABBtree();
    typedef std::pair<acme::entity *, acme::entity *> PP; std::vector<PP> want, got, back;
    for (int i = 0; i < n; ++i) for (auto & j : ov) if (overlap(m.bx[i], boxOf(*j->p))) want.push_back({m.v[i]->p.get(), j->p.get()});
    auto take = [](acme::collection const & o, bool sw) { std::vector<PP> v; for (int i = 0; i + 1 < o.size(); i += 2) v.push_back(sw ? PP{o[i+1].get(), o[i].get()} : PP{o[i].get(), o[i+1].get()}); std::sort(v.begin(), v.end()); return v; };
    std::sort(want.begin(), want.end());
    r = c.intersection(other, out); got = take(out, false); MC_OK(r == !want.empty() && got == want && out.size() == 2 * (int)want.size(), "pairs", "%s: %d pairs instead of %d with another collection for %s", w.c_str(), (int)out.size() / 2, (int)want.size(), content(m).c_str());
    r = other.intersection(c, out); back = take(out, true); MC_OK(r == !want.empty() && back == want && out.size() == 2 * (int)want.size(), "pairs", "%s: %d pairs instead of %d from another collection for %s", w.c_str(), (int)out.size() / 2, (int)want.size(), content(m).c_str());
    if (!want.empty()) mc::nontrivial();
  }
  // all intersections of the content, in order
  if (pairs && n) {
    std::vector<std::string> want; bool stop = false;
    for (int i = 0; i < n && !stop; ++i) for (int j = i; j < n && !stop; ++j) { try { Res g(acme::Intersection(m.v[i]->p.get(), m.v[j]->p.get())); want.push_back(str(g.get())); } catch (std::exception const &) { stop = true; } }
    acme::collection out; bool th = false; try { c.intersection(out); } catch (std::exception const &) { th = true; }
    MC_OK(th == stop, "intersections", "%s: intersections of %s %s", w.c_str(), content(m).c_str(), th ? "failed" : "accepted unsupported pairs");
    if (!th && !stop) { bool ok = out.size() == (int)want.size(); for (int i = 0; ok && i < out.size(); ++i) ok = str(out[i].get()) == want[i]; MC_OK(ok, "intersections", "%s: intersections of %s are others than those of its pairs", w.c_str(), content(m).c_str()); }
  }
}
static void run(std::vector<int> const & pre, std::vector<int> const & seq, std::vector<Box> const & q)
{
  std::vector<Coll> cs(1); cs[0].c.reset(new acme::collection());
  if (pre.size() > 3) { acme::entity::vecptr v; for (int o : pre) { IP p = make(o); v.push_back(p->p); cs[0].m.v.push_back(p); } cs[0].c.reset(new acme::collection(v)); }
  else for (int o : pre) step(cs, o, "");
  std::string w = "start " + content(cs[0].m);
  for (int o : seq) { w += ", " + opName(o); step(cs, o, w); mc::transition(); }
  for (size_t i = 0; i < cs.size(); ++i) check(cs[i], cs.size() > 1 && i + 1 < cs.size() ? w + " (copied collection)" : w, q, seq.size() < 3);
  uint64_t h = cs.size(); for (auto & i : cs.back().m.v) { h = mc::mix(h, i->k + 7 * i->deg); for (double x : i->o) h = mc::mix(h, (uint64_t)(long long)std::llround(x * 1e6)); } h = mc::mix(h, cs.back().m.current());
  mc::state(h); mc::trace(); if (!cs.back().m.v.empty()) mc::nontrivial();
}
int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough(); int depth = th ? 4 : 3;
  std::vector<Box> q = {{-1,-1,-1,0.5,0.5,0.5}, {5,5,5,7,7,7}, {-9,-9,-9,9,9,9}, {1,1,0,1,1,0}};
  int const IX = NP + NR + 3;
  std::vector<std::vector<int>> starts = {{}, {0,1,2,3,4,5,6,7,8,9,10,11}, {5,6,7,8,1,10}, {5,IX}, {8,6,IX}, {2,5,5,2,4,4,0,0,8,9,9}, {12,13,5,14,7,6,11,8}, {15,2,16,3,17,4,12,7,13}};
  for (auto const & s : starts) for (int a = 0; a < NO; ++a) for (int b = 0; b < NO; ++b)
    mc::kase([&] {
      std::vector<int> h = {a, b};
      run(s, {a}, q); run(s, h, q);
      std::function<void(int)> go = [&](int d) { if (!d) return; for (int o = 0; o < NO; ++o) { h.push_back(o); run(s, h, q); go(d - 1); h.pop_back(); } };
      go(depth - 2);
      mc::outcome(mc::mix(a, b));
    }, [&] { std::string t = "start with"; for (int o : s) t += " " + opName(o) + ","; return t + " then " + opName(a) + ", " + opName(b) + " and every continuation"; });
  // large collections
  for (int n : {33, 70, 150, 300}) for (int a = -1; a < NO; ++a)
    mc::kase([&] {
      static int const B[6] = {1, 5, 6, 7, 8, 10};
      std::vector<int> s; for (int i = 0; i < n; ++i) s.push_back(B[(i * (i % 3 + 1) + i / 7) % 6]);
      if (a < 0) run(s, {IX}, q); else { run(s, {a, IX, 7}, q); run(s, {IX, a, NP + NR + 4, IX}, q); }
    }, [&] { return mc::fmt("%d entities, indexed", n) + (a < 0 ? "" : ", " + opName(a)); });
  // motions of every size, repeated
  for (auto const & s : starts) for (int mag = -8; mag <= 5; ++mag)
    mc::kase([&] {
      double z = std::pow(10.0, mag);
      for (auto const & d : std::vector<P3>{{1,0,0}, {0,-1,0}, {0,0,1}, {0.6,-0.7,0.3}, {0,0,0}}) for (int kind = 0; kind < 3; ++kind) {
        if (kind && mag > 0) continue;
        std::vector<Coll> cs(1); cs[0].c.reset(new acme::collection()); for (int o : s) step(cs, o, "");
        acme::collection & c = *cs[0].c; Model & m = cs[0].m; bool zero0 = d[0] == 0 && d[1] == 0 && d[2] == 0;
        for (int k = 0; k < 20; ++k) {
          if (kind == 0) { c.translate(av(z * d)); motion(m, I3, z * d); }
          else if (kind == 1) { double an = zero0 ? 0 : z, co = std::cos(an), si = std::sin(an); c.rotate(an, acme::vec3(0, 0, 1)); motion(m, {P3{co,si,0}, P3{-si,co,0}, P3{0,0,1}}, {0,0,0}); }
          else { Pose p = {z * d[0], z * d[1], z * d[2], z * d[1], z * d[2], z * d[0]}; c.transform(aff(p)); motion(m, rot(p), {p.x, p.y, p.z}); }
          mc::transition();
        }
        for (size_t i = 0; i < m.v.size(); ++i) MC_OK(isMoved(*m.v[i]), "moved", "%s: entity %d is not the moved one after 20 motions of kind %d and size 1e%d", content(m).c_str(), (int)i, kind, mag);
        mc::trace(); if (!m.v.empty()) mc::nontrivial();
      }
    }, [&] { std::string t = "start with"; for (int o : s) t += " " + opName(o) + ","; return t + mc::fmt(" then repeated motions of size 1e%d", mag); });
  return mc::finish();
}
