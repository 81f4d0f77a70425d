// C01: a mesh box query returns exactly the overlapping triangles.
// Reference: scan of all triangles with closed-interval overlap on plain numbers.
#include "common.hh"

struct B { double lo[3], hi[3]; };
static B tbox(enve::triangleground const & t)
{
  B b;
  for (int k = 0; k < 3; ++k) {
    double a = t.vertex(0)[k], c = t.vertex(1)[k], d = t.vertex(2)[k];
    b.lo[k] = std::min(a, std::min(c, d)); b.hi[k] = std::max(a, std::max(c, d));
  }
  return b;
}
static bool ov(B const & a, B const & b)
{ for (int k = 0; k < 3; ++k) if (a.hi[k] < b.lo[k] || b.hi[k] < a.lo[k]) return false; return true; }

static void checkQuery(enve::ground::mesh const & m, TVec const & t, std::vector<B> const & tb, B const & q, TVec & out, int & hits)
{
  acme::aabb::ptr box = std::make_shared<acme::aabb const>(q.lo[0], q.lo[1], q.lo[2], q.hi[0], q.hi[1], q.hi[2]);
  bool ret = m.intersection(box, out);
  mc::transition();
  std::vector<enve::triangleground const *> got, exp;
  for (size_t i = 0; i < out.size(); ++i) got.push_back(out[i].get());
  for (size_t i = 0; i < t.size(); ++i) if (ov(tb[i], q)) exp.push_back(t[i].get());
  std::sort(got.begin(), got.end()); std::sort(exp.begin(), exp.end());
  hits += (int)exp.size();
  mc::outcome(mc::mix(mc::mix(7, exp.size()), t.size()));
  MC_OK(got == exp, "query-set", "query [%g,%g]x[%g,%g]x[%g,%g]: %zu triangles returned, %zu overlap", q.lo[0], q.hi[0], q.lo[1], q.hi[1], q.lo[2], q.hi[2], got.size(), exp.size());
  MC_OK(ret == !exp.empty(), "query-flag", "flag %d with %zu overlapping", (int)ret, exp.size());
}

static std::vector<B> boxes(std::vector<double> const & cx, std::vector<double> const & cy, std::vector<double> const & cz)
{
  std::vector<B> r;
  for (double a : cx) for (double b : cx) if (a <= b)
    for (double c : cy) for (double d : cy) if (c <= d)
      for (double e : cz) for (double f : cz) if (e <= f)
        r.push_back({{a, c, e}, {b, d, f}});
  return r;
}
static TVec withIds(std::vector<std::array<P3,3>> const & v, int scheme)
{
  TVec t; int n = (int)v.size();
  for (int i = 0; i < n; ++i) {
    int id = scheme == 0 ? i : scheme == 1 ? n - 1 - i : scheme == 2 ? 0 : 1000 + 7 * i;
    t.push_back(tri(id, 0.5 + i, v[i][0], v[i][1], v[i][2]));
  }
  return t;
}
static void runMesh(std::vector<std::array<P3,3>> const & v, int scheme, std::vector<B> const & qs)
{
  TVec t = withIds(v, scheme);
  enve::ground::mesh m(t);
  std::vector<B> tb; for (auto const & x : t) tb.push_back(tbox(*x));
  MC_OK(m.size() == t.size(), "size", "size %zu of %zu", (size_t)m.size(), t.size());
  static TVec const junk = {tri(5, 9, {0,0,0}, {1,0,0}, {0,1,0}), tri(0, 9, {1,1,1}, {2,1,1}, {1,2,1})};
  TVec out; int hits = 0; // the same output list is reused: old content must go
  if (scheme % 2 == 0) out = junk;
  for (int far = 0; far < 2; ++far) { // nothing or everything over a list with foreign content
    TVec j = junk; checkQuery(m, t, tb, far ? B{{9e8, 9e8, 9e8}, {1e9, 1e9, 1e9}} : B{{-1e9, -1e9, -1e9}, {1e9, 1e9, 1e9}}, j, hits); }
  for (auto const & q : qs) checkQuery(m, t, tb, q, out, hits);
  for (size_t i = 0; i < t.size(); ++i) {
    MC_OK(m[i].get() == t[i].get() && m.ptrTriangleground(i).get() == t[i].get(), "element", "element %zu differs", i);
  }
  mc::nontrivial(hits > 0);
}

int main(int argc, char ** argv)
{
  mc::init(argc, argv);
  bool th = mc::thorough();
  // 1. every sequence (with repetition) of menu triangles up to the bound
  std::vector<std::array<P3,3>> menu = {
    {{{0,0,0},{1,0,0},{0,1,0}}},       // flat in z
    {{{1,0,0},{2,0,0},{1,1,0}}},       // touches the first in x
    {{{0,0,0},{0,1,0},{0,0,1}}},       // flat in x
    {{{0,1,0},{1,1,0},{0,1,1}}},       // flat in y
    {{{0,0,0},{2,0,1},{0,2,2}}},       // large
    {{{2,2,2},{1,2,2},{2,1,1}}},       // far corner
    {{{0,0,0},{1,0,0},{0,1,0}}},       // coincident with the first
    {{{-2,0.5,0.5},{-1,0.5,0.5},{-2,0.5,1.5}}}, // detached, negative side
    {{{0.25,0.25,1},{0.5,0.25,1},{0.25,0.5,1.25}}}, // small
  };
  std::vector<B> qs = boxes({-1.5, 0, 1, 2.5}, {-0.5, 0, 1}, {-0.5, 0, 1, 2});
  { // keep a spread: all point boxes, all with one full axis, all face-touching ones
    std::vector<B> r; size_t i = 0;
    for (auto const & q : qs) { bool pt = q.lo[0]==q.hi[0] && q.lo[1]==q.hi[1] && q.lo[2]==q.hi[2]; if (pt || i % (th ? 2 : 5) == 0) r.push_back(q); ++i; }
    qs = r;
  }
  int L = th ? 5 : 4;
  for (int n = 0; n <= L; ++n) {
    std::vector<int> s(n, 0);
    for (;;) {
      for (int scheme = 0; scheme < (n <= 3 ? 4 : 1); ++scheme)
        mc::kase([&] {
          std::vector<std::array<P3,3>> v; for (int i : s) v.push_back(menu[i]);
          runMesh(v, n <= 3 ? scheme : (s[0] + 1) % 4, qs);
        }, [&] { std::string d = mc::fmt("menu mesh ids%d:", scheme); for (int i : s) d += mc::fmt(" %d", i); return d; });
      int k = n - 1; while (k >= 0 && ++s[k] == (int)menu.size()) s[k--] = 0;
      if (k < 0) break;
    }
  }
  // 2. one triangle for every lattice box, against every lattice query box
  {
    std::vector<B> all = boxes({0,1,2}, {0,1,2}, {0,1,2});
    std::vector<double> h = {-0.5, 0, 0.5, 1, 1.5, 2, 2.5};
    std::vector<B> q2 = th ? boxes(h, h, h) : boxes({-0.5, 0, 1, 1.5, 2}, {-0.5, 0, 1, 2}, {0, 0.5, 1, 2.5});
    for (auto const & b : all)
      mc::kase([&] {
        runMesh({{{{b.lo[0],b.lo[1],b.lo[2]},{b.hi[0],b.hi[1],b.lo[2]},{b.lo[0],b.hi[1],b.hi[2]}}}}, 3, q2);
      }, [&] { return mc::fmt("single box [%g,%g]x[%g,%g]x[%g,%g]", b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]); });
  }
  // 3. structured meshes that build deep trees: rows, grids, walls, stacks, repeats
  int NM = th ? 40 : 20;
  for (int kind = 0; kind < 7; ++kind)
    for (int n = 1; n <= NM; ++n)
      for (int scheme = 0; scheme < 4; ++scheme)
        mc::kase([&] {
          std::vector<std::array<P3,3>> v;
          for (int i = 0; i < n; ++i) {
            double a = i;
            switch (kind) {
              case 0: v.push_back({{{a,0,0},{a+1,0,0},{a,1,0}}}); break;                     // row in x
              case 1: v.push_back({{{0,a,0},{1,a,0},{0,a+1,0}}}); break;                     // row in y
              case 2: v.push_back({{{0,0,a},{1,0,a},{0,1,a+1}}}); break;                     // stack in z
              case 3: v.push_back({{{0,0,0},{1,0,0},{0,1,0}}}); break;                       // identical
              case 4: { double x = i % 5, y = i / 5; v.push_back({{{x,y,0},{x+1,y,0.25*(i%3)},{x,y+1,0}}}); v.push_back({{{x+1,y,0.25*(i%3)},{x+1,y+1,0},{x,y+1,0}}}); } break; // grid
              case 5: { double s = std::ldexp(1.0, -(i % 12)); v.push_back({{{0,0,0},{s,0,0},{0,s,s}}}); } break; // nested sizes
              case 6: { double x = (i * 7) % 11, z = (i * 5) % 7; v.push_back({{{x,0,z},{x+2,0,z},{x,0,z+2}}}); } break; // scattered wall
            }
          }
          std::vector<double> c = {-1, 0, 0.5, 1, double(n) / 2, n - 0.5, double(n), n + 1.5};
          std::sort(c.begin(), c.end());
          runMesh(v, scheme, boxes(kind == 1 || kind == 2 ? std::vector<double>{-0.5, 0.25, 1} : c, kind == 0 || kind == 2 || kind == 6 ? std::vector<double>{-0.5, 0, 1} : c, kind == 2 || kind == 6 ? c : std::vector<double>{-0.25, 0, 0.25}));
        }, [&] { return mc::fmt("structured kind %d n %d ids%d", kind, n, scheme); });
  // 4. large and very unbalanced meshes
  std::vector<int> sizes = {129, 255, 256, 257, 600, 1500}; if (th) for (int n : {65, 511, 1025, 4000, 70000}) sizes.push_back(n);
  for (int kind = 0; kind < 5; ++kind)
    for (int n : sizes) if (kind < 4 || n <= 600)     // the tree of nested boxes is as deep as they are many
      mc::kase([&] {
        std::vector<std::array<P3,3>> v; int w = std::max(1, (int)std::sqrt(n / 2.0));
        for (int i = 0; i < n; ++i) {
          switch (kind) {
            case 0: { double x = std::pow(1.02, i % 3000) - 1, d = 0.01 * (1 + x); v.push_back({{{x,0,0},{x+d,0,0},{x,d,0.1*(i%2)}}}); } break;     // growing
            case 1: { double x = i / 2 % w, y = i / 2 / w; if (i % 2) v.push_back({{{x,y,0},{x+1,y,0.1},{x,y+1,0}}}); else v.push_back({{{x+1,y+1,0},{x,y+1,0},{x+1,y,0.1}}}); } break; // terrain
            case 2: v.push_back({{{0,0,0},{1,0,0.5},{0,1,1}}}); break;                                                                 // identical
            case 3: { double a = 2.399963 * i, r = std::sqrt(double(i)); double x = r * std::cos(a), y = r * std::sin(a); v.push_back({{{x,y,0.01*i},{x+1,y,0.01*i},{x,y+1,0.01*i+0.5}}}); } break; // spiral
            case 4: { double x = i; v.push_back({{{x,0,0},{double(n),1,0},{x,1,1}}}); } break;                                          // nested in x
          }
        }
        double X = 0; for (auto const & t : v) for (auto const & p : t) X = std::max(X, p[0]);
        std::vector<double> c = {-1.5, 0, 1, 7.5, X / 3, X - 0.25, X + 1};
        std::sort(c.begin(), c.end());
        runMesh(v, n % 4, boxes(c, n > 2000 ? std::vector<double>{0.5, 12.25} : std::vector<double>{-2, 0.5, 1, 12.25}, {0, 0.25, 3}));
      }, [&] { return mc::fmt("large mesh kind %d n %d", kind, n); });
  return mc::finish();
}
