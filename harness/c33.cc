// C33: every printed report gives, under each of its labels, the value the
// object holds when it is printed, and printing changes nothing.
#include "scene.hh"
#include <iomanip>

// A report as the list of its labelled values, in order; values without a label
// (matrices) have an empty one; "[a b c] = 1 2 3" labels three values.
struct Item { std::string label; std::vector<double> v; };
typedef std::vector<Item> Report;
static bool number(std::string t, double & d)
{
  if (t.size() > 2 && t.substr(t.size() - 2) == "pi") t.resize(t.size() - 2);
  while (!t.empty() && strchr("[,", t[0])) t.erase(0, 1);
  while (!t.empty() && strchr("],'", t.back())) t.pop_back();
  if (t.empty()) return false;
  char * e = 0; d = std::strtod(t.c_str(), &e); return !*e;
}
static Report parse(std::string const & text)
{
  Report r; std::istringstream in(text); std::string line;
  while (std::getline(in, line)) {
    std::istringstream ls(line); std::vector<std::string> t; std::string w; while (ls >> w) t.push_back(w);
    double d; bool any = false;
    std::string rib = t.size() > 1 && t[0] == "Rib" && number(t[1], d) ? "Rib" + t[1] + "." : "";
    auto values = [&](size_t i) { std::vector<double> v; for (; i < t.size(); ++i) { if (t[i] == "[" || t[i] == "]'" || t[i] == "]") continue; if (!number(t[i], d)) break; v.push_back(d); } return v; };
    for (size_t i = 1; i < t.size(); ++i) if (t[i] == "=") {
      any = true; Item it; it.v = values(i + 1); it.label = t[i - 1];
      if (it.label.find(']') != std::string::npos) {
        std::vector<std::string> names; size_t j = i; while (j > 0) { --j; std::string n = t[j]; bool first = n[0] == '['; if (first) n.erase(0, 1); while (!n.empty() && strchr("]'", n.back())) n.pop_back(); names.insert(names.begin(), n); if (first) break; }
        if (names.size() == it.v.size()) {
          Report g; for (size_t k = 0; k < names.size(); ++k) g.push_back({rib + names[k], {it.v[k]}});
          std::sort(g.begin(), g.end(), [](Item const & a, Item const & b) { return a.label < b.label; });
          r.insert(r.end(), g.begin(), g.end()); continue;
        }
      }
      it.label = rib + it.label; r.push_back(it);
    }
    if (!any && !t.empty()) { size_t k = 0; while (k < t.size() && (t[k] == "[" || t[k] == "]" || number(t[k], d))) ++k; if (k == t.size()) r.push_back({"", values(0)}); }
  }
  return r;
}
static bool same(double a, double b) { return (a != a && b != b) || a == b || std::abs(a - b) <= 6e-6 * std::abs(b) + 1e-300; }
static std::string str(Item const & i) { std::string s = "'" + i.label + "' ="; for (double v : i.v) s += mc::fmt(" %.7g", v); return s; }
static Report joined(Report const & in) // the rows of a vector or matrix belong to the value before
{ Report r; for (Item const & i : in) if (i.label.empty() && !r.empty()) r.back().v.insert(r.back().v.end(), i.v.begin(), i.v.end()); else r.push_back(i); return r; }
static void compare(char const * what, Report const & g, Report const & w)
{
  Report got = joined(g), want = joined(w);
  for (size_t i = 0; i < std::max(got.size(), want.size()); ++i) {
    if (i >= got.size()) { MC_OK(false, "missing", "%s: %s is not printed", what, str(want[i]).c_str()); return; }
    if (i >= want.size()) { MC_OK(false, "extra", "%s: prints %s, which is not its own", what, str(got[i]).c_str()); return; }
    bool e = got[i].label == want[i].label && got[i].v.size() == want[i].v.size();
    for (size_t k = 0; e && k < got[i].v.size(); ++k) e = same(got[i].v[k], want[i].v[k]);
    MC_OK(e, "value", "%s: prints %s, the object has %s", what, str(got[i]).c_str(), str(want[i]).c_str());
    if (!e) return;
  }
  mc::S().checks++;
}
static void add(Report & r, std::string const & l, P3 const & p) { r.push_back({l, {p[0], p[1], p[2]}}); }
static void add(Report & r, std::string const & l, double v) { r.push_back({l, {v}}); }
static P3 at3(std::vector<double> const & v, int i) { return {v[i], v[i + 1], v[i + 2]}; }

// One kind of object made of n values, printed twice, on streams left in two formats.
typedef std::vector<double> Vals;
struct Kind { char const * name; Vals base; std::function<std::pair<std::string,std::string>(Vals const &)> print; std::function<Report(Vals const &)> want; std::vector<double> menu; };
template <class F> static std::pair<std::string,std::string> twice(F && f)
{ std::ostringstream a, b; f(a); b << std::scientific << std::showpoint << std::setprecision(9); f(b); return {a.str(), b.str()}; }
static std::vector<double> any = {0, -0.0, 1, -2.5, 1 / 3., 1.25e-7, -123456.789, 3e15};
static std::vector<Kind> kinds()
{
  std::vector<Kind> ks;
  auto K = [&](char const * n, Vals b, std::function<void(std::ostream &, Vals const &)> p, std::function<Report(Vals const &)> w, std::vector<double> m = any)
  { ks.push_back({n, b, [p](Vals const & v) { return twice([&](std::ostream & o) { p(o, v); }); }, w, m}); };
  K("vec3", {1, 2, -1}, [](std::ostream & o, Vals const & v) { using namespace acme; o << "V = " << av(at3(v, 0)); }, [](Vals const & v) { Report r; add(r, "V", at3(v, 0)); return r; });
  K("point", {1, 2, -1}, [](std::ostream & o, Vals const & v) { using namespace acme; o << "P = " << ap(at3(v, 0)); }, [](Vals const & v) { Report r; add(r, "P", at3(v, 0)); return r; });
#define OD(T, W) K(#T, {1, 2, -1, 0.6, 0, 0.8}, [](std::ostream & o, Vals const & v) { using namespace acme; o << acme::T(ap(at3(v, 0)), av(at3(v, 3))) << std::endl; }, \
    [](Vals const & v) { Report r; add(r, "origin", at3(v, 0)); add(r, W, at3(v, 3)); return r; });
  OD(line, "direction") OD(ray, "direction") OD(plane, "normal")
  K("segment", {1, 2, -1, 2, 0.5, 1}, [](std::ostream & o, Vals const & v) { using namespace acme; o << acme::segment(ap(at3(v, 0)), ap(at3(v, 3))) << std::endl; },
    [](Vals const & v) { Report r; add(r, "0", at3(v, 0)); add(r, "1", at3(v, 3)); return r; });
  K("triangle", {1, 2, -1, 2, 0.5, 1, -1, -2, 0.5}, [](std::ostream & o, Vals const & v) { using namespace acme; o << acme::triangle(ap(at3(v, 0)), ap(at3(v, 3)), ap(at3(v, 6))) << std::endl; },
    [](Vals const & v) { Report r; add(r, "0", at3(v, 0)); add(r, "1", at3(v, 3)); add(r, "2", at3(v, 6)); return r; });
  K("box", {1, 2, -1, 2, 0.5, 1}, [](std::ostream & o, Vals const & v) { using namespace acme; o << acme::aabb(ap(at3(v, 0)), ap(at3(v, 3))) << std::endl; },
    [](Vals const & v) { acme::aabb b(ap(at3(v, 0)), ap(at3(v, 3))); Report r; add(r, "point", p3(b.min())); add(r, "point", p3(b.max())); return r; });
  K("disk", {1.5, 1, 2, -1, 0.6, 0, 0.8}, [](std::ostream & o, Vals const & v) { using namespace acme; o << acme::disk(v[0], ap(at3(v, 1)), av(at3(v, 4))) << std::endl; },
    [](Vals const & v) { Report r; add(r, "radius", v[0]); add(r, "center", at3(v, 1)); add(r, "normal", at3(v, 4)); return r; });
  K("ball", {1.5, 1, 2, -1}, [](std::ostream & o, Vals const & v) { using namespace acme; o << acme::ball(v[0], ap(at3(v, 1))) << std::endl; },
    [](Vals const & v) { Report r; add(r, "radius", v[0]); add(r, "center", at3(v, 1)); return r; });
  { Vals b; for (int i = 0; i < 16; ++i) b.push_back(0.5 + i);
    K("affine", b, [](std::ostream & o, Vals const & v) { using namespace acme; acme::affine a; for (int i = 0; i < 16; ++i) a.matrix()(i / 4, i % 4) = v[i]; o << a << std::endl; },
      [](Vals const & v) { Report r; for (int i = 0; i < 4; ++i) r.push_back({i ? "" : "Affine", {v[4*i], v[4*i+1], v[4*i+2], v[4*i+3]}}); return r; }); }
  K("wheel shape", {0.31, 2, 0.15, 4, 0.1}, [](std::ostream & o, Vals const & v) { enve::shape(v[0], v[1], v[2], v[3], v[4]).print(o); },
    [](Vals const & v) { Report r; char const * n[] = {"Rx", "Mx", "Ry", "My", "Ly"}; for (int i = 0; i < 5; ++i) add(r, n[i], v[i]); return r; }, {0.2, 1, 3.25, 1 / 3., 12.345678, 0.01});
  K("flat ground", {0.75, 1, 2, -1, 0.6, 0, 0.8}, [](std::ostream & o, Vals const & v) { enve::ground::flat(v[0], ap(at3(v, 1)), av(at3(v, 4))).print(o); },
    [](Vals const & v) { enve::ground::flat f(v[0], ap(at3(v, 1)), av(at3(v, 4))); Report r; add(r, "F", f.friction()); add(r, "O", p3(f.origin())); add(r, "N", p3(f.normal())); return r; }, {0.002, 1, 1 / 3., 1.25e-7, 123456.789, 2.5});
  K("ground triangle", {3, 0.75, 1, 2, -1, 2, 0.5, 1, -1, -2, 0.5}, [](std::ostream & o, Vals const & v) { enve::triangleground((int)v[0], v[1], ap(at3(v, 2)), ap(at3(v, 5)), ap(at3(v, 8))).print(o); },
    [](Vals const & v) { enve::triangleground t((int)v[0], v[1], ap(at3(v, 2)), ap(at3(v, 5)), ap(at3(v, 8))); Report r; add(r, "ID", t.id()); add(r, "F", t.friction());
      for (int i = 0; i < 3; ++i) add(r, mc::fmt("V%d", i), at3(v, 2 + 3 * i)); add(r, "N", p3(t.normal())); add(r, "Max", p3(t.bbox().max())); add(r, "Min", p3(t.bbox().min())); return r; }, {0, 1, 12, 7, 123456, 25});
  return ks;
}
static void entities(bool th)
{
  for (Kind const & k : kinds()) {
    int n = k.base.size(), m = k.menu.size();
    auto one = [&](Vals const & v) {
      auto t = k.print(v);
      compare(k.name, parse(t.first), k.want(v)); compare(k.name, parse(t.second), k.want(v));
      mc::outcome(mc::hs(t.first)); mc::transition();
    };
    for (int i = 0; i < n; ++i) for (int a = 0; a < m; ++a)
      mc::kase([&] {
        Vals v = k.base; v[i] = k.menu[a]; one(v); mc::nontrivial();
        for (int j = i + 1; j < n; ++j) for (double b : k.menu) { Vals u = v; u[j] = b; one(u);
          if (th) for (int l = j + 1; l < n; ++l) for (double c : k.menu) { Vals x = u; x[l] = c; one(x); } }
      }, [&] { return mc::fmt("%s with value %d = %g and every value of %s others", k.name, i, k.menu[a], th ? "two" : "one"); });
  }
}

// box trees: the first box is the hull, every box is the hull of the given boxes inside it, every given box is there
static void trees(bool th)
{
  std::vector<std::array<double,6>> menu = {{0,0,0,1,1,1}, {2,0,0,3,1,1}, {0,2,0.5,1,3,1}, {-4,-1,-2,-1,5,7}, {0.25,0.25,0.25,0.5,0.5,0.5}, {1e5,-1e-6,0,1e5+1,0,2}, {0,0,2,1,1,3}};
  int L = th ? 6 : 5, M = menu.size();
  for (int len = 0; len <= L; ++len) { long tot = 1; for (int i = 0; i < len; ++i) tot *= M;
    for (long c0 = 0; c0 < tot; c0 += (len == L ? M : 1)) mc::kase([&] {
      for (long c = c0; c < c0 + (len == L ? M : 1); ++c) {
      acme::aabb::vecptr b; std::vector<std::array<double,6>> in; long k = c;
      for (int i = 0; i < len; ++i) { auto & x = menu[k % M]; k /= M; in.push_back(x); b.push_back(std::make_shared<acme::aabb>(x[0], x[1], x[2], x[3], x[4], x[5], i, i)); }
      acme::AABBtree t; if (len) t.build(b);
      std::ostringstream o; t.print(o); Report r = parse(o.str());
      Report q; for (auto & i : r) if (i.label != "Box") q.push_back(i);
      std::ostringstream o2; t.print(o2); MC_OK(o2.str() == o.str(), "tree-again", "tree of %d boxes: prints differently the second time", len);
      mc::outcome(mc::hs(o.str())); mc::transition();
      bool form = q.size() % 2 == 0; for (size_t i = 0; i < q.size(); ++i) if (q[i].label != (i % 2 ? "Maximum" : "Minimum") || q[i].v.size() != 3) form = false;
      MC_OK(form, "tree-form", "tree of %d boxes: the report is not a list of boxes", len);
      if (!form) continue;
      MC_OK((len == 0) == q.empty(), "tree-empty", "tree of %d boxes: %zu boxes printed", len, q.size() / 2);
      if (q.empty()) continue;
      auto box = [&](size_t i) { std::array<double,6> x; for (int d = 0; d < 3; ++d) { x[d] = q[2*i].v[d]; x[3+d] = q[2*i+1].v[d]; } return x; };
      auto eq = [](std::array<double,6> const & x, std::array<double,6> const & y) { for (int d = 0; d < 6; ++d) if (!same(x[d], y[d])) return false; return true; };
      auto hull = [&](std::array<double,6> const * within) { std::array<double,6> h = {1e300,1e300,1e300,-1e300,-1e300,-1e300};
        for (auto & x : in) { if (within) { bool ins = true; for (int d = 0; d < 3; ++d) if (x[d] < (*within)[d] - 1e-9 - 6e-6 * std::abs(x[d]) || x[3+d] > (*within)[3+d] + 1e-9 + 6e-6 * std::abs(x[3+d])) ins = false; if (!ins) continue; }
          for (int d = 0; d < 3; ++d) { h[d] = std::min(h[d], x[d]); h[3+d] = std::max(h[3+d], x[3+d]); } } return h; };
      MC_OK(eq(box(0), hull(0)), "tree-hull", "tree of %d boxes: the first box is not their hull", len);
      for (size_t i = 0; i < q.size() / 2; ++i) { auto x = box(i); MC_OK(eq(x, hull(&x)), "tree-node", "tree of %d boxes: box %zu is not the hull of the given boxes inside it", len, i); }
      for (auto & x : in) { size_t has = 0, need = 0; for (size_t i = 0; i < q.size() / 2; ++i) if (eq(box(i), x)) ++has; for (auto & y : in) if (eq(x, y)) ++need;
        MC_OK(has >= need, "tree-leaf", "tree of %d boxes: a box given %zu times is printed %zu times", len, need, has); }
      }
      mc::nontrivial();
    }, [&] { return mc::fmt("tree of %d boxes, sequence %ld", len, c0); }); }
}

// mesh files
static std::string path() { return "report.txt"; }
static std::string slurp() { std::ifstream f(path()); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void meshes(bool th)
{
  std::vector<TriRef> menu = {{{P3{0,0,0}, P3{1,0,0}, P3{0,1,0}}, 1}, {{P3{-1.5,2.25,1e-7}, P3{3e5,1,-4}, P3{1/3.,0.1,0.2}}, 0.3}, {{P3{1,1,1}, P3{2,2,2}, P3{1,2,3}}, 0}, {{P3{1,0,0}, P3{0,0,1}, P3{1,1,0}}, 1e6}, {{P3{5,5,5}, P3{5,6,5}, P3{6,5,5.5}}, 1/7.}};
  int M = menu.size(), L = th ? 5 : 4;
  auto check = [&](enve::ground::mesh const & m, std::vector<TriRef> const & ts, char const * when) {
    m.print(path()); std::string t = slurp(); Report want;
    for (size_t i = 0; i < ts.size(); ++i) { add(want, "T", i); for (int v = 0; v < 3; ++v) add(want, mc::fmt("V%d", v), ts[i].v[v]); add(want, "N", p3(m.ptrTriangleground(i)->normal())); add(want, "F", ts[i].f); }
    compare(when, parse(t), want); mc::outcome(mc::hs(t)); mc::transition();
    m.print(path()); MC_OK(slurp() == t, "mesh-again", "%s: the file differs when printed a second time", when);
    MC_OK(m.size() == ts.size(), "mesh-size", "%s: the mesh has %zu triangles after printing", when, m.size());
    for (size_t i = 0; i < std::min(m.size(), ts.size()); ++i) for (int v = 0; v < 3; ++v) MC_OK(beq(p3(m.ptrTriangleground(i)->vertex(v)), ts[i].v[v]), "mesh-kept", "%s: triangle %zu moved by printing", when, i);
  };
  for (int len = 0; len <= L; ++len) { long tot = 1; for (int i = 0; i < len; ++i) tot *= M;
    for (long c = 0; c < tot; ++c) mc::kase([&] {
      std::vector<TriRef> ts; long k = c; for (int i = 0; i < len; ++i) { ts.push_back(menu[k % M]); k /= M; }
      { std::ofstream f(path()); for (int i = 0; i < 4000; ++i) f << "V0 = [ 1, 2, 3 ]'\n"; }     // an older, longer file
      enve::ground::mesh m(tv(ts)); check(m, ts, "mesh");
      std::vector<TriRef> half(ts.begin(), ts.begin() + len / 2);
      enve::ground::mesh h; h.copy(enve::ground::mesh(tv(half))); check(h, half, "shorter mesh over the longer file"); check(m, ts, "mesh again");
      remove(path().c_str()); mc::nontrivial();
    }, [&] { return mc::fmt("mesh of %d triangles, sequence %ld", len, c); }); }
}

// shells
static Report wantShell(enve::shell const & s, WheelDef const & wd, Snap const & a)
{
  Report r; double const PI_ = MPI; size_t n = a.n;
  auto rib = [](size_t i, char const * l) { return mc::fmt("Rib%zu.%s", i, l); };
  add(r, "Rx", wd.rx); add(r, "Mx", wd.mx); add(r, "Ry", wd.ry); add(r, "My", wd.my); add(r, "Ly", wd.ly);
  for (size_t i = 0; i < n; ++i) { add(r, rib(i, "C"), p3(s.ribCenter(i))); add(r, rib(i, "R"), s.ribRadius(i)); add(r, "W", s.ribWidth(i)); add(r, "A", s.ribAngle(i)); }
  add(r, "R", s.surfaceMaxRadius()); add(r, "Γ", a.euler[1] / PI_); add(r, "ß", a.euler[2] / PI_); add(r, "α", a.euler[0] / PI_);
  add(r, "P", a.pt); for (size_t i = 0; i < n; ++i) add(r, rib(i, "P"), a.pts[i]);
  add(r, "N", a.nr); for (size_t i = 0; i < n; ++i) add(r, rib(i, "N"), a.nrs[i]);
  add(r, "f", a.f); for (size_t i = 0; i < n; ++i) add(r, rib(i, "f"), a.fs[i]);
  add(r, "d", a.d); for (size_t i = 0; i < n; ++i) add(r, rib(i, "d"), a.ds[i]);
  add(r, "A", a.a); for (size_t i = 0; i < n; ++i) add(r, rib(i, "A"), a.as[i]);
  add(r, "V", a.v); for (size_t i = 0; i < n; ++i) add(r, rib(i, "V"), a.vs[i]);
  for (auto const * f : {&a.pose, &a.frame}) for (int i = 0; i < 4; ++i) r.push_back({"", {(*f)[4*i], (*f)[4*i+1], (*f)[4*i+2], (*f)[4*i+3]}});
  auto ang = [&](std::string const & p, P3 const & e) { Report g; add(g, p + "Γ", e[1] / PI_); add(g, p + "ß", e[2] / PI_); add(g, p + "α", e[0] / PI_);
    std::sort(g.begin(), g.end(), [](Item const & x, Item const & y) { return x.label < y.label; }); r.insert(r.end(), g.begin(), g.end()); };
  ang("", a.ang); for (size_t i = 0; i < n; ++i) ang(mc::fmt("Rib%zu.", i), a.angs[i]);
  return r;
}
static void shells(bool th)
{
  std::vector<Ground> G = grounds(); std::vector<WheelDef> W = wheels();
  std::vector<int> use = {0, 1, 3, 5, 8}; std::vector<Pose> ps = {{0.0137, 0.0111, 0.22, 0.05, 0, 0.1}, {-0.2091, 0.1, 0.13, -2.1, -0.36, 2.4}, {0.1, -0.1, 2.5, 3.0, 0.14, -1}};
  int nset = use.size() * ps.size() * 2, N = nset + 2, L = th ? 3 : 2;
  auto name = [&](int o) { return o < nset ? "setup on " + G[use[o / 2 / ps.size()]].name + " at " + str(ps[o / 2 % ps.size()]) + " " + METHODS[o % 2] : std::string(o == nset ? "translate" : "rotate"); };
  for (auto const & wd : W) for (int first = 0; first < nset; ++first)
    mc::kase([&] {
      std::map<int,GObj> go; for (int u : use) go[u] = mkGround(G[u]);
      auto run = [&](std::vector<int> const & q) {
        auto s = mk(wd); bool ret = false; std::string w;
        for (int o : q) {
          if (o < nset) { int u = use[o / 2 / ps.size()]; ret = setup(*s, go[u], aff(ps[o / 2 % ps.size()]), METHODS[o % 2]); }
          else if (o == nset) s->translate(acme::vec3(0.31, -0.2, 0.05)); else s->rotate(0.7, acme::vec3(0.1, 1, 0.2));
          mc::transition();
        }
        Snap a = snap(*s, ret); std::ostringstream os, o2; s->print(os); Snap b = snap(*s, ret); s->print(o2);
        std::string d = diff(a, b); MC_OK(d.empty(), "shell-kept", "printing changed the %s", d.c_str());
        MC_OK(os.str() == o2.str(), "shell-again", "the report differs when printed a second time");
        compare(name(q.back()).c_str(), parse(os.str()), wantShell(*s, wd, a));
        mc::outcome(mc::hs(os.str())); mc::state(mc::hs(os.str())); mc::trace();
      };
      run({first}); for (int b = 0; b < N; ++b) { run({first, b}); if (L > 2) for (int c = 0; c < N; ++c) run({first, b, c}); }
      mc::nontrivial();
    }, [&] { return str(wd) + ", " + name(first) + mc::fmt(", then every sequence of %d more", L - 1); });
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv); bool th = mc::thorough();
  entities(th); trees(th); meshes(th); shells(th);
  return mc::finish();
}
